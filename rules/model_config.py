"""The parser's configuration and the order of its steps."""
from .data import *
from . import model_parse as mp, model_build as mb
from .model_encode import assume_in

CFG = 'svd_parser::Config'
EXP = ('svd_parser::expand', 'svd_parser::expand::expand', 'svd_parser::expand_properties', 'svd_parser::expand::expand_properties')
DEV = 'svd_rs::Device'

def check_setters(ck):
    c = ck.c
    ck.rule('parser configuration: a setter changes its own option only; the default is weak validation with nothing ignored or expanded')
    for k in c.fields(CFG):
        def one(k=k):
            f = c.fn(CFG + '::' + k); r = c.run(f); x, v = c.args(f)
            got = r.ret
            ck.same(f, 'sets its option', c.F(got, CFG, k), v, notes=r.notes)
            for o in c.fields(CFG):
                if o != k: ck.same(f, 'keeps option %s' % o, c.F(got, CFG, o), boolf(c, x, o), notes=r.notes)
        ck.guarded('setter %s' % k, one, anchor=CFG + '::' + k)
    def dflt():
        f = c.impl('Default::default', CFG); r = c.run(f)
        for k in c.fields(CFG):
            ck.same(f, 'default of %s' % k, c.F(r.ret, CFG, k), c.variant(LVL, 'Weak') if k == 'validate_level' else FALSE, notes=r.notes)
        g = [h for h in c.P.fns.values() if h['ti'] == 'std::default::Default::default' and c.P.types[h['locals'][0]].get('n') == LVL]
        for h in g: ck.same(h, 'default level', c.run(h).ret, c.variant(LVL, 'Weak'))
    ck.guarded('defaults', dflt, anchor='Default for ' + CFG)
    def plain():
        f = c.fn('svd_parser::parse'); r = c.run(f, ['svd_parser::parse_with_config'])
        d = [h for h in c.P.fns.values() if h['ti'] == 'std::default::Default::default' and c.P.types[h['locals'][0]].get('n') == CFG]
        want = leafs.res_call('svd_parser::parse_with_config', c.args(f)[0], c.run(d[0]).ret)
        ck.same(f, 'reads with the default configuration', r.ret, want, notes=r.notes)
    ck.guarded('parse', plain, anchor='svd_parser::parse', private=True)

def boolf(c, x, o):
    v = c.F(x, CFG, o)
    return v if o == 'validate_level' else atom_bool(v)

def pipeline(c):
    f = c.fn('svd_parser::parse_with_config')
    r = c.run(f, mp.opaque(c) + list(EXP))
    return f, r
def steps(c, r):
    """the calls of the expansion steps in the result: (property expansion, expansion)"""
    props, exp = set(), set()
    for x in subterms(r.ret):
        if x.op == 'call' and x.a[0].split('!')[0].endswith('expand_properties'): props.add(x.a[0])
        elif x.op == 'call' and x.a[0].endswith('::expand'): exp.add(x.a[0])
    return props, exp
def spec(c, f, r, t):
    """(success, device) of reading text t"""
    xml, cfg = c.args(f)
    doc = leafs.res_call('xmlparse', t)
    root = call('docroot', c.okv(doc))
    dev = mp.child(c, root, 'device')
    d = mp.parse(c, DEV, c.some(dev), cfg)
    ok = b_and(c.is_ok(doc), b_and(c.is_some(dev), c.is_ok(d)))
    props, exp = steps(c, r)
    pn = next(iter(props)) if len(props) == 1 else 'svd_parser::expand_properties!mut0'
    en = next(iter(exp)) if len(exp) == 1 else 'svd_parser::expand'
    p, e = boolf(c, cfg, 'expand_properties'), boolf(c, cfg, 'expand')
    v = c.okv(d)
    v = ite(p, call(pn, v), v)
    x = leafs.res_call(en, v)
    return b_and(ok, ite(e, c.is_ok(x), TRUE)), ite(e, c.okv(x), v)
def trimmed(t):
    return ite(atom_bool(call('bstarts', t, lstr('\ufeff'))), leafs.strslice(t, lint(3), None), t)

def check_steps(ck):
    c = ck.c
    ck.rule('processing steps: the device read from the text without its byte-order mark, with inherited properties filled in first and arrays and derivations expanded afterwards, each exactly when requested')
    def one():
        f, r = pipeline(c)
        xml, cfg = c.args(f)
        ok, v = spec(c, f, r, trimmed(xml))
        p, e = boolf(c, cfg, 'expand_properties'), boolf(c, cfg, 'expand')
        ck.same(f, 'succeeds exactly when the text parses and every requested step succeeds', c.is_ok(r.ret), ok, notes=r.notes)
        for what, g in (('no step requested', b_and(b_not(p), b_not(e))), ('inherited properties requested', b_and(p, b_not(e))), ('expansion requested', b_and(b_not(p), e)), ('both requested', b_and(p, e))):
            ck.same(f, 'result, ' + what, c.okv(r.ret), v, under=b_and(ok, g), notes=r.notes)
    ck.guarded('parse_with_config', one, anchor='svd_parser::parse_with_config')
    no_wrappers(ck)
def no_wrappers(ck):
    """the public names of the steps are the steps themselves"""
    c = ck.c
    for a, b in ((EXP[0], EXP[1]), (EXP[2], EXP[3])):
        if c.has(a) and c.has(b) and c.fn(a)['key'] != c.fn(b)['key']:
            ck.unk(a, 'is the step', 'a second function of that name')

NAMED = {('FieldInfo', 'ignore_enums'): ('enumerated_values', 'write_constraint')}
def check_independence(ck):
    c = ck.c
    ck.rule('a reader hands its configuration on unchanged, and its result depends on an option only where the option says so: on the validation level through validation, '
            'on ignore_enums for the enumerated values and write constraint of fields, on the expansion options not at all')
    for st in mp.PROPS:
        def one(st=st):
            f, r, n, cfg = mp.result(c, st)
            # nested readers
            bad = None
            for x in subterms(r.ret):
                if x.op == 'call' and x.a[0].startswith(mp.PP) and len(x.a) == 3 and x.a[2] is not cfg and x.a[2] is not UNIT:
                    if x.a[2].op == 'adt' and 'Config' not in x.a[2].a[0]: continue
                    bad = x
            if bad is None: ck.ok(f, 'nested elements are read with the same configuration')
            elif tainted(bad.a[2]) is not None: ck.unk(f, 'nested elements are read with the same configuration', show(bad.a[2], 0, 5))
            else: ck.viol(f, 'nested elements are read with the same configuration', 'read with %s' % cut(show(bad.a[2], 0, 5)))
            for o in c.fields(CFG):
                if o == 'validate_level': continue
                a = c.F(cfg, CFG, o)
                on, off = assume_in(r.ret, [(a, 1)]), assume_in(r.ret, [(a, 0)])
                ex = NAMED.get((st, o), ())
                if not ex:
                    ck.same(f, 'does not depend on option %s' % o, on, off, notes=r.notes)
                    continue
                for fl in c.fields(sty(c, st)):
                    v1, v0 = (G(c, c.okv(x), st, fl) for x in (on, off))
                    if fl in ex:
                        t = c.P.types[c.P.adt_by_name[sty(c, st)]['v'][0]['f'][c.fields(sty(c, st)).index(fl)][1]]
                        none = NONE() if t.get('n', '').endswith('::Option') else EMPTYL
                        ck.same(f, '%s is dropped when %s is set' % (fl, o), v1, none, under=c.is_ok(on), notes=r.notes)
                    else: ck.same(f, '%s does not depend on option %s' % (fl, o), v1, v0, under=b_and(c.is_ok(on), c.is_ok(off)), notes=r.notes)
                # nothing else may make reading fail only when the option is set
                ck.same(f, 'ignoring makes nothing fail that is read otherwise', b_or(b_not(c.is_ok(off)), c.is_ok(on)), TRUE, under=no_valid(c, off, on), notes=r.notes)
        ck.guarded('options in reading %s' % st, lambda: mb.either(ck, one), anchor='Parse for ' + st)
def no_valid(c, a, b):
    """ignoring validation of the assembled element"""
    g = TRUE
    for x in list(subterms(a)) + list(subterms(b)):
        if x.op == 'call' and x.a[0].endswith(('::validate', '::validate_all')) and mk('disc', x) in DOM: g = b_and(g, guard_eq(mk('disc', x), 0))
    return g
