"""Validation (svd-rs)."""
from .data import *

STRUCTS = ['Device', 'Cpu', 'PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo', 'EnumeratedValue', 'EnumeratedValues',
           'DimElement', 'AddressBlock', 'Interrupt', 'RegisterProperties']
# the name grammars
NAME = '^[_A-Za-z0-9]*$'
DIMABLE = r'^(((%s)|(%s)[_A-Za-z]{1}[_A-Za-z0-9]*)|([_A-Za-z]{1}[_A-Za-z0-9]*(\[%s\])?)|([_A-Za-z]{1}[_A-Za-z0-9]*(%s)?[_A-Za-z0-9]*))$'

NAMES_ON = [True]
def name_ok(c, x): return c.lang(NAME, x) if NAMES_ON[0] else TRUE
def dimable_ok(c, x): return c.lang(DIMABLE, x) if NAMES_ON[0] else TRUE
def path_ok(c, x): return c.forall(call('split', x, lstr('.')), lambda p: dimable_ok(c, p))
def if_some(c, x, p): return b_or(b_not(c.is_some(x)), p(c.some(x)))
def implies(a, b): return b_or(b_not(a), b)
def fits(size, value): return lift(lambda z, v: lt(v, mk('call', 'pow', lint(2), z)), (size, value))
def in_range(x, w): return lt(x, mk('call', 'pow', lint(2), w))

def usage(c, e):
    """usage of enumerated values: unknown for derived ones, read-write by default"""
    U = 'svd_rs::Usage'
    u = G(c, e, 'EnumeratedValues', 'usage')
    return ite(c.is_some(G(c, e, 'EnumeratedValues', 'derived_from')), NONE(), SOME(ite(c.is_some(u), c.some(u), c.variant(U, 'ReadWrite'))))

def spec(c, n, x, lvl):
    """condition under which element x is accepted at the level"""
    g = lambda f: G(c, x, n, f)
    S, E = strict(c, lvl), enabled(c, lvl)
    if n == 'Device': return implies(E, c.nonempty(g('peripherals')))
    if n in ('Cpu', 'DimElement', 'AddressBlock', 'Interrupt'): return TRUE
    if n == 'RegisterProperties':
        size, v, m = g('size'), g('reset_value'), g('reset_mask')
        both = lambda a, b: b_and(c.is_some(a), c.is_some(b))
        return b_and(implies(b_and(E, both(size, v)), fits(c.some(size), c.some(v))),
                     b_and(implies(b_and(S, both(size, m)), fits(c.some(size), c.some(m))),
                           implies(b_and(S, both(v, m)), eq(c.some(v), mk_bitand(c.some(v), c.some(m))))))
    if n == 'PeripheralInfo':
        d, r = g('derived_from'), g('registers')
        return implies(S, b_and(dimable_ok(c, g('name')), ite(c.is_some(d), dimable_ok(c, c.some(d)), if_some(c, r, lambda l: c.nonempty(l)))))
    if n == 'ClusterInfo':
        d = g('derived_from')
        return implies(S, b_and(dimable_ok(c, g('name')), ite(c.is_some(d), path_ok(c, c.some(d)), c.nonempty(g('children')))))
    if n == 'RegisterInfo':
        d, fl = g('derived_from'), g('fields')
        return implies(S, b_and(b_and(dimable_ok(c, g('name')), b_and(if_some(c, g('alternate_group'), lambda a: name_ok(c, a)), if_some(c, g('alternate_register'), lambda a: dimable_ok(c, a)))),
                                ite(c.is_some(d), path_ok(c, c.some(d)), if_some(c, fl, lambda l: c.nonempty(l)))))
    if n == 'EnumeratedValue':
        v, d = g('value'), g('is_default')
        isd = b_and(c.is_some(d), c.some(d))
        return implies(E, b_and(implies(S, name_ok(c, g('name'))), b_and(b_or(c.is_some(v), isd), implies(S, b_not(b_and(c.is_some(v), isd))))))
    if n == 'EnumeratedValues':
        nm, d = g('name'), g('derived_from')
        return implies(E, b_and(implies(S, if_some(c, nm, lambda a: name_ok(c, a))),
                                ite(c.is_some(d), implies(S, path_ok(c, c.some(d))), c.nonempty(g('values')))))
    if n == 'FieldInfo':
        br = g('bit_range'); w = G(c, br, 'BitRange', 'width'); evs = g('enumerated_values'); wc = g('write_constraint')
        narrow = lt(w, lint(64))
        def ev_ok(e):
            return c.forall(G(c, e, 'EnumeratedValues', 'values'), lambda v: if_some(c, G(c, v, 'EnumeratedValue', 'value'), lambda k: in_range(k, w)))
        def rd_wr(a, b):
            U = 'svd_rs::Usage'
            ua, ub = usage(c, a), usage(c, b)
            return b_and(if_some(c, ua, lambda u: c.is_variant(u, U, 'Read')), if_some(c, ub, lambda u: c.is_variant(u, U, 'Write')))
        e0, e1 = c.E.index(evs, lint(0)), c.E.index(evs, lint(1))
        compat = lift1(lambda l: mk_case(c.E.length(l), {0: TRUE, 1: TRUE, 2: b_or(rd_wr(e0, e1), rd_wr(e1, e0))}, FALSE), evs)
        W = 'svd_rs::WriteConstraint'
        rngc = fld(c.some(wc), c.vi(W, 'Range'), 0)
        lo, hi = (G(c, rngc, 'WriteConstraintRange', k) for k in ('min', 'max'))
        wc_ok = implies(b_and(c.is_some(wc), c.is_variant(c.some(wc), W, 'Range')), b_and(b_not(lt(hi, lo)), b_and(in_range(lo, w), in_range(hi, w))))
        return implies(E, b_and(implies(S, b_and(dimable_ok(c, g('name')), if_some(c, g('derived_from'), lambda d: path_ok(c, d)))),
                       b_and(b_not(eq(w, lint(0))), b_and(implies(narrow, c.forall(evs, ev_ok)), b_and(implies(S, compat), implies(narrow, wc_ok))))))
    raise SpecGap('no validation rule for ' + n)

def mk_bitand(a, b): return lift(lambda x, y: leafs_bitand(x, y), (a, b))
def leafs_bitand(a, b): return mk('call', 'bitand', *sorted((a, b), key=lambda t: t.id if hasattr(t, 'id') else repr(t)))

def vfn(c, n): return c.fn(sty(c, n) + '::validate')
def found(c, n):
    """condition of acceptance as the code has it, with the parameters"""
    f = vfn(c, n); r = c.run(f)
    return f, r, c.is_ok(r.ret)
def accepted(c, n, x, lvl):
    f, r, g = found(c, n)
    a, l = c.args(f)
    return lift(lambda xx, ll: subst(g, {a: xx, l: ll}), (x, lvl)) if True else g

def check_rules(ck):
    c = ck.c
    ck.rule('validation rule table: an element is accepted at a level exactly when the rules listed for its kind hold')
    for n in STRUCTS:
        def one(n=n):
            f, r, g = found(c, n)
            x, lvl = c.args(f)
            for v in ('Disabled', 'Weak', 'Strict'):
                lv = c.variant(LVL, v)
                ck.same(f, 'accepted at level %s exactly when the rules for its kind hold' % v.lower(), subst(g, {lvl: lv}), spec(c, n, x, lv), notes=r.notes)
        ck.guarded('validate %s' % n, one, anchor=n + '::validate')

def check_names(ck):
    c = ck.c
    ck.rule('when the rules that are not about names hold, an element is accepted at the strict level exactly when its names follow the name grammar, and at the other levels whatever its names are; '
            'the grammar is compared as the minimal automaton of the accepted texts')
    for n in STRUCTS:
        if n in ('Device', 'RegisterProperties'): continue
        def one(n=n):
            f, r, g = found(c, n)
            x, lvl = c.args(f)
            for v in ('Disabled', 'Weak', 'Strict'):
                lv = c.variant(LVL, v)
                want = spec(c, n, x, lv)
                try:
                    NAMES_ON[0] = False
                    rest = spec(c, n, x, lv)
                finally: NAMES_ON[0] = True
                ck.same(f, 'names decide acceptance at level %s exactly by the name grammar' % v.lower(), subst(g, {lvl: lv}), want, under=rest, notes=r.notes)
        ck.guarded('names of %s' % n, one, anchor=n + '::validate')

def check_levels(ck):
    c = ck.c
    ck.rule('acceptance at the strict level implies acceptance at the weak level, and with validation disabled everything is accepted; decided on the acceptance '
            'conditions of the code itself')
    for n in STRUCTS:
        def one(n=n):
            f, r, g = found(c, n)
            x, lvl = c.args(f)
            D, W, S = (subst(g, {lvl: c.variant(LVL, v)}) for v in ('Disabled', 'Weak', 'Strict'))
            ck.same(f, 'disabled validation accepts everything', D, TRUE, notes=r.notes)
            ck.same(f, 'strictly accepted implies weakly accepted', implies(S, W), TRUE, notes=r.notes, known=subterms(S) & subterms(W))
        ck.guarded('levels of %s' % n, one, anchor=n + '::validate')
    def preds():
        for me, vs in (('is_disabled', ['Disabled']), ('is_weak', ['Weak', 'Strict']), ('is_strict', ['Strict'])):
            f = c.fn(LVL + '::' + me); r = c.run(f)
            ck.same(f, 'true exactly for %s' % ', '.join(vs), r.ret, level(c, c.args(f)[0], *vs), notes=r.notes)
        f = c.impl('Default::default', LVL); r = c.run(f)
        ck.same(f, 'default level is weak', r.ret, c.variant(LVL, 'Weak'))
    ck.guarded('level predicates', preds, anchor=LVL)

CFG = 'svd_parser::Config'
def level_args(c, f):
    """parameters of f that are, or hold, the level: (index, what kind)"""
    r = []
    for i in range(f['argc']):
        n = c.P.types[c.P.strip_ref(f['locals'][i + 1])].get('n')
        if n in (LVL, CFG): r.append((i, n))
    return r
def level_of(c, v, n): return v if n == LVL else c.F(v, CFG, 'validate_level')
def check_passed(ck):
    c = ck.c
    ck.rule('level passing rule: whatever a function of the crates calls with a level, or a configuration holding one, it calls with the level it was given itself')
    fs = {f['key']: f for f in c.P.fns.values() if f['cr'].startswith('svd') and f['kind'] == 'fn' and '{closure' not in f['name'] and level_args(c, f)}
    op = ['none', 'svd_parser::expand', 'svd_parser::expand_properties', 'svd_parser::expand::expand', 'svd_parser::expand::expand_properties'] + sorted({f['name'] for f in fs.values()})
    for f in sorted(fs.values(), key=lambda f: (f['name'], f['key'])):
        if f['name'].startswith((CFG, LVL, '<' + CFG, '<' + LVL)): continue    # the setters and predicates themselves
        def one(f=f):
            a = c.args(f); own = {level_of(c, a[i], n) for i, n in level_args(c, f)}
            if len(own) != 1: raise SpecGap('two levels')
            own, = own
            r = c.run(f, op, key='levels')
            for nm, key, vals, p, _, _ in r.calls:
                if key not in fs: continue
                for i, n in level_args(c, fs[key]):
                    if i < len(vals) and p is not FALSE:
                        ck.same(f, 'calls %s at its own level' % nm, level_of(c, vals[i], n), own, under=p, notes=r.notes)
        ck.guarded('level passed on', one, anchor=f['name'])

CHILDREN = {
    'Device': [('opt', 'cpu', 'Cpu', 'validate'), ('one', 'default_register_properties', 'RegisterProperties', 'validate'), ('list', 'peripherals', 'Peripheral', 'all')],
    'PeripheralInfo': [('optlist', 'address_block', 'AddressBlock', 'validate'), ('list', 'interrupt', 'Interrupt', 'validate'),
                       ('one', 'default_register_properties', 'RegisterProperties', 'validate'), ('rc', None, None, 'all')],
    'ClusterInfo': [('one', 'default_register_properties', 'RegisterProperties', 'validate'), ('rc', None, None, 'all')],
    'RegisterInfo': [('one', 'properties', 'RegisterProperties', 'validate'), ('optlist', 'fields', 'Field', 'all')],
    'FieldInfo': [('list', 'enumerated_values', 'EnumeratedValues', 'evs')],
    'EnumeratedValues': [('list', 'values', 'EnumeratedValue', 'validate')],
}
def check_all(ck):
    c = ck.c
    ck.rule('full validation of an element succeeds exactly when the element and each of its direct children validate fully at the same level; by induction every nested element is checked')
    MA_OF = {'Peripheral': 'PeripheralInfo', 'Cluster': 'ClusterInfo', 'Register': 'RegisterInfo', 'Field': 'FieldInfo'}
    def allok(n, x, lvl):
        """full validation of a nested element that has children of its own"""
        inner = [f for f in c.P.fns.values() if f['name'].endswith('::validate_all') and 'MaybeArray<%s>' % sty(c, n) in f['name']]
        if not inner: raise Missing('validate_all of single-or-array ' + n)
        return lift1(lambda a: c.is_ok(leafs.res_call(inner[0]['name'], a, lvl)), x)
    for n, kids in CHILDREN.items():
        def one(n=n, kids=kids):
            f = c.fn(sty(c, n) + '::validate_all')
            r = c.run(f, ['*::validate_all'])
            x, lvl = c.args(f)
            ok = accepted(c, n, x, lvl)
            for kind, fld_, ty, how in kids:
                def vok(e):
                    if how == 'validate': return accepted(c, ty, e, lvl)
                    if how == 'evs': return lift1(lambda a: c.is_ok(leafs.res_call(sty(c, ty) + '::validate_all', a, lvl)), e)
                    return allok(MA_OF[ty], e, lvl)
                if kind == 'rc':
                    L = reglist(c, x, n)
                    def rcok(e): return c.match(e, RC, {'Register': allok('RegisterInfo', fld(e, c.vi(RC, 'Register'), 0), lvl), 'Cluster': allok('ClusterInfo', fld(e, c.vi(RC, 'Cluster'), 0), lvl)})
                    ok = b_and(ok, b_and(c.forall(payloads(c, L, 'Register'), lambda e: allok('RegisterInfo', e, lvl)), c.forall(payloads(c, L, 'Cluster'), lambda e: allok('ClusterInfo', e, lvl))))
                    continue
                v = G(c, x, n, fld_)
                if kind == 'one': ok = b_and(ok, vok(v))
                elif kind == 'opt': ok = b_and(ok, implies(c.is_some(v), vok(c.some(v))))
                elif kind == 'optlist': ok = b_and(ok, c.forall(ite(c.is_some(v), c.some(v), EMPTYL), vok))
                else: ok = b_and(ok, c.forall(v, vok))
            ck.same(f, 'accepts exactly when the element and all its children are accepted at that level', c.is_ok(r.ret), ok, notes=r.notes)
        ck.guarded('validate_all %s' % n, one, anchor=n + '::validate_all')
    for n in MA_OF.values():
        def two(n=n):
            fs = [f for f in c.P.fns.values() if f['name'].endswith('::validate_all') and 'MaybeArray<%s>' % sty(c, n) in f['name']]
            if not fs: raise Missing('validate_all of single-or-array ' + n)
            f = fs[0]; r = c.run(f, ['*::validate_all'])
            x, lvl = c.args(f)
            inner = lift1(lambda a: c.is_ok(leafs.res_call(sty(c, n) + '::validate_all', a, lvl)), info(c, x))
            ok = b_and(inner, implies(is_array(c, x), accepted(c, 'DimElement', dimof(c, x), lvl)))
            ck.same(f, 'accepts exactly when the dimension and the element are accepted at that level', c.is_ok(r.ret), ok, notes=r.notes)
        ck.guarded('validate_all array %s' % n, two, anchor=n + '::validate_all')
