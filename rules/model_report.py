"""What the error of a rejected document says."""
from . import model_parse as mp
from . import model_build as mb
from .data import *
from engine.leafs import opt_call
from .spec import NONLIN
from .model_parse import S, child, raw_text, trimmed, is_tag, parse, PP, KEYWORDS, Bits, tagname, res_call, indexes, is_element, hastag
from engine.terms import elem

AT, ER, BRE = 'svd_parser::SVDErrorAt', 'svd_parser::SVDError', 'svd_parser::bitrange::InvalidBitRange'
# the variant that names an unknown word, by the type read
WORD = {'UnknownEndian': 'Endian', 'UnknownAccessType': 'Access', 'InvalidDatatype': 'DataType', 'InvalidModifiedWriteValues': 'ModifiedWriteValues',
        'InvalidReadAction': 'ReadAction', 'InvalidProtection': 'Protection'}
PLAIN = {'UnknownUsageVariant': 'Usage', 'UnknownAddressBlockUsageVariant': 'AddressBlockUsage'}
ARRAYS = {'peripheral': 'PeripheralInfo', 'cluster': 'ClusterInfo', 'register': 'RegisterInfo', 'field': 'FieldInfo'}

def nested(e): return e.op == 'fld' and e.a[1] == 1 and e.a[0].op == 'call' and e.a[0].a[0].startswith(PP)
def has_text(c, x): return c.is_some(raw_text(x))
def named(x, t): return hastag(x, t)
def kid(c, x, t): return c.first(call('children', x), lambda e: hastag(e, t))
def claim(c, ty, e, i, cfg, n):
    """(what the error says, the condition under which it is true)"""
    if e.op == 'fld' and nested(e.a[0]): return None, TRUE     # the error of a nested reader, unchanged (where it points: C09)
    if e.op != 'adt' or not e.a[0].endswith('SVDError'): return 'another error', e
    if not (i.op == 'call' and i.a[0] == 'nodeid'): return None, TRUE
    x = i.a[1]; v = c.variants(ER)[e.a[1]]; a = e.a[2:]; st = ty.split('::')[-1].rstrip('>')
    text = trimmed(c.some(raw_text(x)))
    if v == 'MissingTag':
        k = kid(c, x, a[0])
        return (v, a[0]), b_or(b_not(c.is_some(k)), b_not(has_text(c, c.some(k))))
    if v == 'EmptyTag': return (v, a[0]), b_and(eq(a[0], tagname(x)), b_not(has_text(c, x)))
    if v == 'NotExpectedTag': return (v, a[0]), b_not(eq(tagname(x), a[0]))
    if v in WORD or v in PLAIN:
        w = (WORD.get(v) or PLAIN[v]); known = FALSE
        for k in KEYWORDS[w].values(): known = b_or(known, eq(text, lstr(k)))
        g = b_and(lbool(w == st), b_and(has_text(c, x), b_not(known)))
        return (v,) + a[:1], b_and(g, eq(a[0], text)) if v in WORD else g
    if v == 'InvalidRegisterCluster': return (v, a[0]), b_and(eq(a[0], tagname(x)), b_not(is_tag(x, 'register', 'cluster')))
    if v == 'InvalidBooleanValue':
        p = res_call('parse[bool]', text)
        return (v, a[0]), b_and(b_and(eq(a[0], text), eq(a[1], fld(p, 1, 0))), b_and(has_text(c, x), b_not(c.is_ok(p))))
    if v == 'MissingPlaceholder':
        g = FALSE
        for tag, ar in ARRAYS.items():
            p = parse(c, S(ar), x, cfg); nm = G(c, c.okv(p), ar, 'name')
            g = b_or(g, b_and(b_and(eq(a[0], nm), eq(a[1], lstr(tag))), b_and(is_tag(x, tag), b_not(atom_bool(mk('call', 'contains', nm, lstr('%s')))))))
        return (v,) + a, g
    if v == 'IncorrectDimIndexesCount':
        d = c.okv(parse(c, S('DimElement'), x, cfg)); ix = G(c, d, 'DimElement', 'dim_index'); m = G(c, d, 'DimElement', 'dim')
        return (v,) + a, b_and(b_and(eq(a[0], m), eq(a[1], length(c.some(ix)))), b_and(c.is_some(ix), b_not(eq(m, length(c.some(ix))))))
    if v == 'DimIndexParse': return (v,), b_and(has_text(c, x), b_not(c.is_some(indexes(text))))
    if v in ('UnknownWriteConstraint', 'MoreThanOneWriteConstraint'):
        ch = call('children', x); el = c.first(ch, is_element)
        if v[0] == 'U': return (v,), b_not(b_and(c.is_some(el), is_tag(c.some(el), 'writeAsRead', 'useEnumeratedValues', 'range')))
        return (v,), c.is_some(c.E.head(leafs.skip(c.E, c.filter(ch, is_element), lint(1))))
    if v == 'InvalidBitRange':
        s = Bits(c, x); k = a[0]
        what = {'Empty': b_and(s.hb, b_not(s.text)),
                'Syntax': b_or(b_and(s.hb, b_and(s.text, b_not(b_and(s.brackets, s.two)))), b_not(b_or(s.hb, b_or(s.hm, s.ho)))),
                'ParseError': b_or(b_and(s.hb, b_and(s.text, b_or(s.badnum, s.many))), b_and(s.ho, b_not(s.ok3))),
                'MsbLsb': b_and(s.hm, b_not(s.ok2)),
                'Size': b_or(b_and(s.hb, b_and(s.ok1, b_not(s.g1))), b_and(s.hm, b_and(s.ok2, b_not(s.g2))))}
        vs = c.variants(BRE)
        if set(vs) != set(what): raise SpecGap('bit range errors %s' % vs)
        return (v,), lift1(lambda l: what[vs[l.a[1]]], k)
    if v == 'Svd':      # the error of the builder or of the validation, unchanged
        src = a[0].a[0] if a[0].op == 'fld' and a[0].a[1] == 1 else a[0]
        return (v,), TRUE if src.op == 'call' and src.a[0].split('::')[-1] in ('build', 'validate') else eq(a[0], mk('call', 'error of a builder'))
    if v == 'ParseInt':
        src = a[0].a[0] if a[0].op == 'fld' and a[0].a[1] == 1 else a[0]
        ok = src.op == 'call' and any(t is text for t in subterms(src))
        return (v,), b_and(has_text(c, x), b_not(c.is_ok(src))) if ok else eq(a[0], mk('call', 'error of parsing the text'))
    raise SpecGap('error ' + v)

def check_kinds(ck):
    c = ck.c
    ck.rule('truth of errors: on every path that rejects an element the error returned is a true statement about the element it points to (missing tag: no such child with content; unknown word: the trimmed text, of the enumeration read, and not one of its words; index count: the two numbers; ...)')
    fe = [k for k, (nm, _) in enumerate(c.P.adt_by_name[AT]['v'][0]['f']) if nm == 'error'][0]
    for (m, ty), fs in sorted(c.byimpl.items()):
        if m != 'Parse::parse': continue
        for f in fs:
            if f['key'] in c.private_readers(): continue
            def one(f=f, ty=ty):
                r = c.run(f, mp.opaque(c) + ['*::build'])
                n, cfg = c.args(f)
                said = {}
                def err(e):
                    if nested(e): return TRUE
                    if e.op != 'adt' or not e.a[0].endswith('SVDErrorAt'): raise Unknown('error %s' % cut(show(e, 0, 5), 150))
                    er, at = e.a[2 + fe], e.a[3 - fe]
                    return lift1(lambda l: lift1(lambda i: one_claim(l, i), at), er)
                def one_claim(l, i):
                    w, g = claim(c, ty, l, i, cfg, n)
                    if w is not None: said.setdefault(w, []).append((l, i))
                    cur = flt[0]
                    return g if cur is None or w == cur else TRUE
                def res(l):
                    if l.op == 'adt' and l.a[0] == 'Result': return lift1(err, l.a[2]) if l.a[1] == 1 else TRUE
                    if l.op == 'call' and l.a[0].startswith(PP): return TRUE
                    raise Unknown('result %s' % cut(show(l, 0, 5), 150))
                flt = [None]
                t = lift1(res, r.ret)
                if t is TRUE:
                    for w in said or [('nested errors only',)]: ck.ok(f, 'true when said: ' + label(w))
                    return
                for w in list(said):
                    flt[0] = w
                    ck.same(f, 'true when said: ' + label(w), lift1(res, r.ret), TRUE, notes=r.notes)
            ck.guarded('errors of %s' % ty, one, anchor=ty)
def label(w): return ' '.join(x if isinstance(x, str) else cut(show(x, 0, 4), 60) for x in w)

# ------------------------------------------------------------ the report of parse_with_config
KINDS = ('device', 'peripheral', 'register', 'field', 'enumeratedValue', 'interrupt')
def parts(m):
    """texts a message is made of: (terms, literal text)"""
    ts, ls = set(), []
    st = [m]
    while st:
        x = st.pop()
        if x.op == 'lit': ls.append(str(x.a[1]))
        elif x.op == 'call' and x.a[0] in ('cat', 'format', 'concat'): st.extend(y for y in x.a[1:] if isinstance(y, T))
        else: ts.add(x)
    return ts, ' '.join(ls)
def mentions(m, t):
    """the message says t (a term that is a literal on this path is part of its text)"""
    ts, ls = parts(m)
    return t in ts or (t.op == 'lit' and str(t.a[1]) in ls)
def name_of(c, x):
    k = child(c, x, 'name'); t = raw_text(c.some(k))
    return b_and(c.is_some(k), c.is_some(t)), c.some(t)
def said(c, m, x, tags, pos=None):
    """condition under which message m names the element: tag, name if it has one, position"""
    g = TRUE
    if pos is not None and not mentions(m, pos): g = FALSE
    has, nm = name_of(c, x)
    if not mentions(m, nm) and not mentions(m, mk('call', 'trim', nm)):
        g = b_and(g, b_not(has) if tags is not None else b_or(b_not(has), eq(tagname(x), lstr(''))))
    tg = tagname(x)
    if mentions(m, tg): return g
    ls = parts(m)[1]
    ok = FALSE
    for t in tags or ('',):
        if t in ls: ok = b_or(ok, eq(tg, lstr(t)))
    return b_and(g, ok)
def check_report(ck):
    c = ck.c
    ck.rule('report of a rejected document: the error of reading the device is kept as cause; the messages around it give position, tag and name of the element it points to, and then, from the inside out, tag and name of every enclosing %s' % ', '.join(KINDS))
    from . import model_config as mc
    def one():
        f, r = mc.pipeline(c)
        xml, cfg = c.args(f)
        bad = []
        n = [0]
        def base(e, doc):
            return nested(e) and e.a[0].a[0].endswith('[%s]' % sty(c, 'Device'))
        def place(e, doc):
            i = fld(e, 0, [k for k, (nm, _) in enumerate(c.P.adt_by_name[AT]['v'][0]['f']) if nm == 'id'][0])
            x = c.some(opt_call('getnode', doc, i))
            return x, call('display', call('textpos', doc, fld(call('noderange', x), 0, 0)))
        def docs(e): return [x for x in subterms(e) if x.op == 'fld' and x.a[0].op == 'call' and x.a[0].a[0] == 'xmlparse']
        def inner(e):
            """error of reading the device with its first message"""
            if e.op == 'call' and e.a[0] == 'ctx' and e.a[2].op == 'call' and e.a[2].a[0] == 'anyhow':
                d = e.a[2].a[1]
                if not base(d, None): raise Unknown('cause %s' % cut(show(d, 0, 4), 100))
                doc = docs(d)[0]; x, pos = place(d, doc)
                n[0] += 1
                return said(c, e.a[1], x, None, pos)
            if e.op == 'call' and e.a[0] == 'anyhow': return FALSE
            raise Unknown('report %s' % cut(show(e, 0, 4), 150))
        def outer(e):
            if e.op == 'call' and e.a[0] == 'partial': e = e.a[1]        # up to the ancestor that ends the loop
            if e.op == 'fold':
                L, k, fs = e.a[0], e.a[1], e.a[2]
                if len(fs) != 1: raise Unknown('several values carried around the ancestors')
                init, lv, body = fs[0]
                el = elem(L, k)
                src = [x for x in subterms(init) if nested(x)]
                if not src: raise Unknown('cause of the report')
                x, pos = place(src[0], docs(src[0])[0])
                anc = call('ancestors', x)
                g = lift1(inner, init)
                if not (L is leafs.skip(c.E, anc, lint(1)) or L is anc):
                    base_l, k0 = (L.a[1], L.a[2]) if L.op == 'call' and L.a[0] == 'skip' else (L, lint(0))
                    other = base_l.op == 'call' and base_l.a[0] == 'ancestors'
                    if tainted(L) is not None or not other or k0.op != 'lit': raise Unknown('ancestors %s' % cut(show(L, 0, 5), 120))
                    g = FALSE
                root = [y for y in subterms(e.a[4]) if y.op == 'call' and y.a[0] == 'eq' and any(z.op == 'call' and z.a[0].endswith('new') for z in y.a[1:] if isinstance(z, T))] if isinstance(e.a[4], T) else []
                ex = e.a[4] if isinstance(e.a[4], T) else FALSE
                # the node with number 0 is the document, which has no name and no ancestor
                ex = subst(ex, {y: is_tag(el, '') for y in root})
                g = b_and(g, b_or(b_not(ex), is_tag(el, '')))
                def step(l):
                    if l is lv: return b_not(is_tag(el, *KINDS))
                    if l.op == 'call' and l.a[0] == 'ctx' and l.a[2] is lv:
                        n[0] += 1
                        return b_or(b_not(is_tag(el, *KINDS)), said(c, l.a[1], el, KINDS))
                    raise Unknown('message of an ancestor: %s' % cut(show(l, 0, 4), 120))
                return b_and(g, lift1(step, body))
            return b_and(lift1(inner, e), FALSE)      # nothing about the enclosing elements
        def err(e):
            if e.op == 'call' and e.a[0] == 'anyhow':
                d = e.a[1]
                if base(d, None): return FALSE      # nothing said about it
                if d.op == 'fld' and d.a[1] == 1: return TRUE
                if d.op == 'adt' and d.a[0].endswith('SVDErrorAt'):
                    w, g = claim(c, 'Device', d.a[2], d.a[3], cfg, None)
                    return g
                raise Unknown('error %s' % cut(show(d, 0, 4), 120))
            if e.op == 'fld' and e.a[1] == 1 and not nested(e): return TRUE     # of a later step
            return outer(e)
        def res(l):
            if l.op == 'adt' and l.a[0] == 'Result': return lift1(err, l.a[2]) if l.a[1] == 1 else TRUE
            if l.op == 'call': return TRUE
            raise Unknown('result %s' % cut(show(l, 0, 5), 150))
        t = lift1(res, r.ret)
        ck.same(f, 'the report names the place (%d messages)' % n[0], t, TRUE, notes=r.notes)
    ck.guarded('report', one, anchor='svd_parser::parse_with_config')

# ------------------------------------------------------------ errors of building and of validation
from . import model_valid as mv
SE = 'svd_rs::SvdError'
def snake(s): return ''.join('_' + ch.lower() if ch.isupper() else ch for ch in s)
def invalid(c, n, x, b, e, only=None):
    """(what the error says of element x (builder b), the condition under which it is true)"""
    if e.op == 'fld' and e.a[1] == 1 and e.a[0].op == 'call' and e.a[0].a[0].split('::')[-1] in ('validate', 'build'): return None, TRUE
    if e.op != 'adt' or e.a[0] != SE: raise Unknown('error %s' % cut(show(e, 0, 4), 120))
    g = lambda f: G(c, x, n, f)
    k = c.variants(SE)[e.a[1]]; p = e.a[2]
    if p.op != 'adt':
        if p.op == 'fld' and p.a[1] == 1 and p.a[0].op == 'call' and p.a[0].a[0].split('::')[-1] in ('validate', 'build'): return None, TRUE
        raise Unknown('error %s' % cut(show(e, 0, 4), 120))
    v = c.variants(p.a[0])[p.a[1]]; a = p.a[2:]
    w = ('%s %s' % (k, v),)
    width = lambda: G(c, g('bit_range'), 'BitRange', 'width')
    def outside(val, rng):
        lo, hi = rng.a[2], rng.a[3]
        return b_and(b_and(eq(lo, lint(0)), eq(hi, mk('call', 'pow', lint(2), width()))), b_not(lt(val, hi)))
    if k == 'Build':
        if a[0].op != 'lit': raise Unknown('name of a missing property')
        nm = mb.names(c)[n]; bty = nm.get('b', nm['s']); fl = snake(a[0].a[1])
        if fl not in c.fields(bty): return w + a, FALSE
        none = lambda f: b_not(c.is_some(c.F(b, bty, f)))
        return w + a, none(fl)
    if k == 'Name':
        s, tag = a
        if tag.op != 'lit': raise Unknown('tag of a bad name')
        fl = snake(tag.a[1])
        if fl not in c.fields(sty(c, n)): return w + a[1:], FALSE
        t = c.P.types[c.P.adt_by_name[sty(c, n)]['v'][0]['f'][c.fields(sty(c, n)).index(fl)][1]]
        val = c.some(g(fl)) if t.get('n', '').endswith('::Option') else g(fl)
        own = eq(s, val)
        if own is FALSE or own.op == 'case':      # or a part of it
            part = s.op == 'fld' and s.a[0].op == 'first' and s.a[0].a[0] is call('split', val, lstr('.'))
            if part: own = TRUE
        gram = mv.name_ok if fl in ('alternate_group',) or n in ('EnumeratedValue', 'EnumeratedValues') and fl == 'name' else mv.dimable_ok
        return w + a[1:], b_and(own, b_not(gram(c, s)))
    key = (k, v)
    W = 'svd_rs::WriteConstraint'
    def lohi():
        rngc = fld(c.some(g('write_constraint')), c.vi(W, 'Range'), 0)
        return [G(c, rngc, 'WriteConstraintRange', z) for z in ('min', 'max')]
    opt_empty = lambda f: b_and(c.is_some(g(f)), b_not(c.nonempty(c.some(g(f)))))
    both = lambda *fs: b_and(c.is_some(g(fs[0])), c.is_some(g(fs[1])))
    # the values carried are those of the element, and they break the rule
    carries = lambda v1, v2, rule: b_and(TRUE if only == 'rule' else b_and(eq(a[0], v1), eq(a[1], v2)), TRUE if only == 'values' else rule)
    pair = lambda f1, f2, rule: b_and(both(f1, f2), carries(c.some(g(f1)), c.some(g(f2)), rule))
    cond = {
        ('Device', 'EmptyDevice'): lambda: b_not(c.nonempty(g('peripherals'))),
        ('Cluster', 'EmptyCluster'): lambda: b_not(c.nonempty(g('children'))),
        ('Peripheral', 'EmptyRegisters'): lambda: opt_empty('registers'),
        ('Register', 'EmptyFields'): lambda: opt_empty('fields'),
        ('BitRange', 'ZeroWidth'): lambda: eq(width(), lint(0)),
        ('Field', 'IncompatibleEnumeratedValues'): lambda: b_not(compatible(c, n, x)),
        ('EnumeratedValue', 'AbsentValue'): lambda: b_not(c.is_some(g('value'))),
        ('EnumeratedValue', 'ValueAndDefault'): lambda: b_and(eq(disc(a[0]), disc(g('value'))), b_and(eq(c.some(a[0]), c.some(g('value'))), b_and(c.is_some(g('value')), b_and(c.is_some(g('is_default')), c.some(g('is_default')))))),
        ('EnumeratedValue', 'OutOfRange'): lambda: outside(*a),
        ('EnumeratedValues', 'Empty'): lambda: b_not(c.nonempty(g('values'))),
        ('RegisterProperties', 'ValueTooLarge'): lambda: pair('reset_value', 'size', b_not(mv.fits(a[1], a[0]))),
        ('RegisterProperties', 'MaskTooLarge'): lambda: pair('reset_mask', 'size', b_not(mv.fits(a[1], a[0]))),
        ('RegisterProperties', 'MaskConflict'): lambda: pair('reset_value', 'reset_mask', b_not(eq(a[0], mv.mk_bitand(a[0], a[1])))),
        ('WriteConstraint', 'ReversedRange'): lambda: (lambda lo, hi: carries(lo, hi, lt(hi, lo)))(*lohi()),
        ('WriteConstraint', 'OutOfRange'): lambda: lift1(lambda l: outside(l, a[1]), a[0]),
    }
    if key not in cond: raise SpecGap('error %s %s' % key)
    return w, cond[key]()
def compatible(c, n, x):
    evs = G(c, x, n, 'enumerated_values'); U = 'svd_rs::Usage'
    def rd_wr(a, b):
        ua, ub = mv.usage(c, a), mv.usage(c, b)
        return b_and(mv.if_some(c, ua, lambda u: c.is_variant(u, U, 'Read')), mv.if_some(c, ub, lambda u: c.is_variant(u, U, 'Write')))
    e0, e1 = c.E.index(evs, lint(0)), c.E.index(evs, lint(1))
    return lift1(lambda l: mk_case(c.E.length(l), {0: TRUE, 1: TRUE, 2: b_or(rd_wr(e0, e1), rd_wr(e1, e0))}, FALSE), evs)
POW = (mk('call', 'pow', lint(2), mk('sym', 'width')),)     # bounds 2^width are arithmetic of the rules
NUMS = tuple(mk('call', n, lint(2), mk('sym', 'width')) for n in NONLIN)
TWO = ('RegisterProperties ValueTooLarge', 'RegisterProperties MaskTooLarge', 'RegisterProperties MaskConflict', 'WriteConstraint ReversedRange')
def check_invalid(ck):
    c = ck.c
    ck.rule('truth of build and validation errors: an error naming a missing property is returned only when that property was not given; an error naming a rule only when the element breaks that rule, with the values that break it')
    nm = mb.names(c)
    for n in mv.STRUCTS:
        for what in ('build', 'validate'):
            def one(n=n, what=what):
                if what == 'build':
                    f = c.fn(nm[n].get('b', nm[n]['s']) + '::build'); r = c.run(f, mb.opq(c)); x = b = c.args(f)[0]
                else:
                    f = mv.vfn(c, n); r = c.run(f); x = b = c.args(f)[0]
                said = {}; flt = [None]; only = [None]
                def err(e):
                    if e.op == 'adt' and e.a[0] == SE and e.a[2].op == 'case':
                        return lift1(lambda p: err(mk('adt', e.a[0], e.a[1], p)), e.a[2])
                    if e.op == 'adt' and e.a[0] == SE and e.a[2].op == 'adt' and e.a[2].a[0].endswith('::NameError'):
                        for i in (2, 3):        # the name and its kind, by what they depend on
                            if e.a[2].a[i].op == 'case':
                                return lift1(lambda l, i=i: err(mk('adt', e.a[0], e.a[1], mk('adt', *(e.a[2].a[:i] + (l,) + e.a[2].a[i + 1:])))), e.a[2].a[i])
                    w, g = invalid(c, n, x, b, e, only[0])
                    if w is not None: said.setdefault(w, 0)
                    return g if flt[0] in (None, w) else TRUE
                def res(l):
                    if l.op == 'adt' and l.a[0] == 'Result': return lift1(err, l.a[2]) if l.a[1] == 1 else TRUE
                    if l.op == 'call' and l.a[0].split('::')[-1] in ('validate', 'build'): return TRUE
                    raise Unknown('result %s' % cut(show(l, 0, 5), 150))
                t = lift1(res, r.ret)
                for w in list(said) or [('no error of its own',)]:
                    flt[0] = w; two = w[0] in TWO
                    for only[0] in (('values', 'rule') if two else (None,)):
                        ck.same(f, 'true when said: ' + label(w) + (' (%s)' % only[0] if two else ''), lift1(res, r.ret) if said else t, TRUE,
                                notes=r.notes, known=NUMS if only[0] == 'values' else POW)
            ck.guarded('%s errors of %s' % (what, n), one, anchor='%s of %s' % (what, n))

# ------------------------------------------------------------ the text of an error
NOT_SAID = {('svd_rs::NameError', 'Invalid', 1)}       # the kind of name
def ordered(m):
    """parts of a message in order"""
    if m.op == 'call' and m.a[0] in ('cat', 'format', 'concat'): return [y for x in m.a[1:] if isinstance(x, T) for y in ordered(x)]
    return [m]
def atoms_of(t): return [x.a[0] for x in subterms(t) if x.op == 'case']
def shows(p, x):
    """part p of a message displays value x"""
    return p is x or p.op == 'call' and (p.a[0] in ('dec', 'display', 'trim') or p.a[0].startswith('fmt:')) and p.a[1] is x
def check_messages(ck):
    c = ck.c
    ck.rule('text of errors: the displayed text of an error contains every value the error carries in the order carried (the required before the found number of indexes), and that of a wrapping error the text of the error it wraps')
    own = {}
    for f in c.P.fns.values():
        if f['ti'] != 'std::fmt::Display::fmt' or not f['cr'].startswith('svd'): continue
        t = c.P.types[c.P.strip_ref(f['locals'][1])].get('n', '')
        if t.split('::')[-1] in ('Error', 'SvdError', 'SVDError', 'NameError', 'BuildError', 'SVDErrorAt'): own[t] = f
    for must in (SE, ER, AT): 
        if must not in own: ck.viol(must, 'has a text', 'no Display implementation')
    for t, f in sorted(own.items()):
        def one(t=t, f=f):
            r = c.run(f); m = r.out(2)
            if m is None or m.op not in ('call', 'case', 'adt', 'lit'): raise Unknown('text of %s' % t)
            x, fm = c.args(f)
            d = c.P.adt_by_name[t]
            for vi, v in enumerate(d['v']):
                o = assume(m, mk('disc', x), vi) if len(d['v']) > 1 else m
                by_case = False
                for k, (nm, ft) in enumerate(v['f']):
                    if (t, v['n'], k) in NOT_SAID or nm == 'id': continue
                    w = fld(x, vi, k); ty = c.P.types[ft]; inner = own.get(ty.get('n', ''))
                    if inner is not None:
                        mi = c.run(inner).out(2); xi, fi = c.args(inner)
                        mi = subst(mi, {xi: w, fi: lstr('')})
                        def within(a, b):
                            pa = ordered(a); ls = ' '.join(str(p.a[1]) for p in pa if p.op == 'lit')
                            # literals next to each other are one part
                            return lbool(all((str(q.a[1]) in ls) if q.op == 'lit' else any(q is p for p in pa) for q in ordered(b)))
                        ck.same(f, '%s: the text of the wrapped error' % v['n'], lift(within, (o, mi)), TRUE, notes=r.notes)
                        continue
                    if 'Range' in ty['s']:
                        ws = [fld(w, 0, 0), fld(w, 0, 1)]
                        want = lambda a, w=w, ws=ws: any(shows(p, w) for p in ordered(a)) or all(any(shows(p, z) or any(q is z for q in subterms(p)) for p in ordered(a)) for z in ws)
                    else: want = lambda a, w=w: any(shows(p, w) or any(q is w for q in subterms(p)) for p in ordered(a))
                    by_case |= any(q is w for a in atoms_of(o) for q in subterms(a))       # spelled out case by case
                    ck.same(f, '%s: value %d is in the text' % (v['n'], k), TRUE if by_case else lift1(lambda l: lbool(want(l)), o), TRUE, notes=r.notes)
                if len(v['f']) > 1 and not by_case and not any((t, v['n'], k) in NOT_SAID or v['f'][k][0] == 'id' for k in (0, 1)):
                    def inorder(l):
                        ps = ordered(l); at = [[i for i, p in enumerate(ps) if shows(p, fld(x, vi, k)) or any(q is fld(x, vi, k) for q in subterms(p))] for k in (0, 1)]
                        return lbool(bool(at[0] and at[1]) and min(at[0]) < max(at[1]))
                    ck.same(f, '%s: values in the order carried' % v['n'], lift1(inorder, o), TRUE, notes=r.notes)
                if not v['f']: ck.same(f, '%s: has a text' % v['n'], lift1(lambda l: lbool(len(ordered(l)) > 1), o), TRUE)
        ck.guarded('text of %s' % t, one, anchor=t)
