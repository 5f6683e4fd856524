"""Paths of elements, the index of a device, and the resolution of derivation paths."""
from .data import *
from .model_expand import recursive, called
X = 'svd_parser::expand::'
PATHS = ('BlockPath', 'RegisterPath', 'FieldPath', 'EnumPath')
MAPS = [('peripherals', 'PeripheralInfo'), ('clusters', 'ClusterInfo'), ('registers', 'RegisterInfo'), ('fields', 'FieldInfo'), ('evs', 'EnumeratedValues')]

# ------------------------------------------------------------------ path terms
def bpath(c, p, l): return c.struct(X + 'BlockPath', dict(peripheral=p, path=l))
def rpath(c, b, n): return c.struct(X + 'RegisterPath', dict(block=b, name=n))
def fpath(c, r, n): return c.struct(X + 'FieldPath', dict(register=r, name=n))
def epath(c, f, n): return c.struct(X + 'EnumPath', dict(field=f, name=n))
def pf(c, x, n, f): return c.F(x, X + n, f)
def sub(c, b, n): return bpath(c, pf(c, b, 'BlockPath', 'peripheral'), lcat(pf(c, b, 'BlockPath', 'path'), mk_list([item(n)])))
def lcat(a, b): return leafs.lcat(a, b)
def parts(s): return leafs.split(s, lstr('.'))
def lastof(v): return fld(leafs.opt_last(v), 1, 0)
def empty(v): return guard_eq(mk('call', 'len', v), 0)
def firstof(c, v): return fld(c.E.first(v, 1, TRUE), 1, 0)
def block_of(c, v):
    """peripheral and clusters named by a non-empty list of parts"""
    while v.op == 'call' and v.a[0] == 'init': w = v.a[1]; v = w
    return v
def block(c, v):
    return bpath(c, firstof(c, block_of(c, v)), leafs.skip(c.E, v, lint(1)))

def check_paths(ck):
    c = ck.c
    ck.rule('path rule: a path holds the names it was made of; its text is these joined with dots; a text denotes the path of its dot-separated parts')
    def one(what, fname, want, under=None, ret=True):
        def go():
            f = c.fn(X + fname); r = c.run(f, key='paths'); a = c.args(f)
            w = want(*a)
            ck.same(f, what, r.ret, w, under=under(*a) if under else None, notes=r.notes)
        ck.guarded(what, go, anchor=X + fname)
    own = 'is made of its parts'
    one(own, 'BlockPath::new', lambda p: bpath(c, p, EMPTYL))
    one(own, 'BlockPath::new_cluster', lambda s, n: sub(c, s, n))
    one(own, 'BlockPath::new_register', lambda s, n: rpath(c, s, n))
    one(own, 'RegisterPath::new', lambda b, n: rpath(c, b, n))
    one(own, 'RegisterPath::new_field', lambda s, n: fpath(c, s, n))
    one(own, 'FieldPath::new', lambda b, n: fpath(c, b, n))
    one(own, 'FieldPath::new_enum', lambda s, n: epath(c, s, n))
    one(own, 'EnumPath::new', lambda b, n: epath(c, b, n))
    acc = 'tells its part'
    one(acc, 'BlockPath::name', lambda s: lastof(pf(c, s, 'BlockPath', 'path')), lambda s: b_not(empty(pf(c, s, 'BlockPath', 'path'))))
    def parent(s):
        l = pf(c, s, 'BlockPath', 'path')
        return ite(empty(l), NONE(), SOME(bpath(c, pf(c, s, 'BlockPath', 'peripheral'), leafs.init(l))))
    one(acc, 'BlockPath::parent', parent)
    R = lambda s: pf(c, s, 'FieldPath', 'register')
    one(acc, 'RegisterPath::peripheral', lambda s: pf(c, pf(c, s, 'RegisterPath', 'block'), 'BlockPath', 'peripheral'))
    one(acc, 'FieldPath::register', R)
    one(acc, 'FieldPath::peripheral', lambda s: pf(c, pf(c, R(s), 'RegisterPath', 'block'), 'BlockPath', 'peripheral'))
    one(acc, 'EnumPath::field', lambda s: pf(c, s, 'EnumPath', 'field'))
    one(acc, 'EnumPath::register', lambda s: R(pf(c, s, 'EnumPath', 'field')))
    one(acc, 'EnumPath::peripheral', lambda s: pf(c, pf(c, R(pf(c, s, 'EnumPath', 'field')), 'RegisterPath', 'block'), 'BlockPath', 'peripheral'))
    # texts
    def pb(v): return tup(ite(empty(leafs.init(v)), NONE(), SOME(block(c, leafs.init(v)))), lastof(v))
    def pr(v):
        i = leafs.init(v)
        return tup(ite(empty(i), NONE(), SOME(rpath(c, block(c, leafs.init(i)), lastof(i)))), lastof(v))
    rd = 'reads the parts of a dotted text'
    one(rd, 'BlockPath::parse_str', lambda s: pb(parts(s)))
    one(rd, 'RegisterPath::parse_str', lambda s: pb(parts(s)))
    full = lambda v: b_or(empty(leafs.init(v)), b_not(empty(leafs.init(leafs.init(v)))))
    one(rd, 'FieldPath::parse_str', lambda s: pr(parts(s)), lambda s: full(parts(s)))
    one(rd, 'BlockPath::parse_vec', pb, lambda v: b_not(empty(v)))
    one(rd, 'RegisterPath::parse_vec', pb, lambda v: b_not(empty(v)))
    one(rd, 'FieldPath::parse_vec', pr, lambda v: b_and(b_not(empty(v)), full(v)))

    # written form and comparison with a written form
    def text(n, x):
        if n == 'BlockPath':
            return cat(pf(c, x, n, 'peripheral'), leafs.concat(c.fmap(pf(c, x, n, 'path'), lambda e: [item(cat(lstr('.'), e))])))
        up = dict(RegisterPath='block', FieldPath='register', EnumPath='field')[n]
        return cat(text(PATHS[PATHS.index(n) - 1], pf(c, x, n, up)), lstr('.'), pf(c, x, n, 'name'))
    def denotes(n, x, v, exact):
        """the parts v are those of path x"""
        if n == 'BlockPath':
            l = pf(c, x, n, 'path'); rest = leafs.skip(c.E, v, lint(1))
            if exact: return b_and(eq(firstof(c, block_of(c, v)), pf(c, x, n, 'peripheral')), eq(rest, l))
            z = leafs.zip2(c.E, rest, l)
            return b_and(eq(c.E.length(v), add(c.E.length(l), lint(1))), b_and(eq(firstof(c, block_of(c, v)), pf(c, x, n, 'peripheral')),
                         c.forall(z, lambda e: eq(fld(e, 0, 0), fld(e, 0, 1)))))
        up = dict(RegisterPath='block', FieldPath='register', EnumPath='field')[n]
        i = leafs.init(v)
        return b_and(b_not(empty(i)), b_and(eq(lastof(v), pf(c, x, n, 'name')), denotes(PATHS[PATHS.index(n) - 1], pf(c, x, n, up), i, exact)))
    for n in PATHS:
        def disp(n=n):
            f = c.impl('Display::fmt', X + n); r = c.run(f, key='paths'); a = c.args(f)
            ck.same(f, 'is written as its dotted names', r.out(2), cat(a[1], text(n, a[0])), notes=r.notes)
        ck.guarded('written form', disp, anchor=n)
        def cmp_(n=n):
            f = c.impl('PartialEq::eq', X + n) if False else next(h for h in c.byimpl.get(('PartialEq::eq', X + n), []) if 'PartialEq<str>' in h['name'])
            r = c.run(f, key='paths'); a = c.args(f)
            def alt(exact): return lambda: ck.same(f, 'equals a text exactly when that has the same parts', r.ret, denotes(n, a[0], parts(a[1]), exact), notes=r.notes)
            ck.either(alt(False), alt(True))
        ck.guarded('comparison', cmp_, anchor=n)
        def deq(n=n):
            f = next(h for h in c.byimpl.get(('PartialEq::eq', X + n), []) if 'PartialEq<str>' not in h['name'])
            leafs.WHOLE_EQ[0] = False
            try: r = c.run(f, key='paths-eq')
            finally: leafs.WHOLE_EQ[0] = True
            a = c.args(f)
            def alleq(n, x, y):
                if n == 'BlockPath': return b_and(eq(pf(c, x, n, 'peripheral'), pf(c, y, n, 'peripheral')), eq(pf(c, x, n, 'path'), pf(c, y, n, 'path')))
                up = dict(RegisterPath='block', FieldPath='register', EnumPath='field')[n]
                return b_and(alleq(PATHS[PATHS.index(n) - 1], pf(c, x, n, up), pf(c, y, n, up)), eq(pf(c, x, n, 'name'), pf(c, y, n, 'name')))
            ck.same(f, 'equals another path exactly when all parts do', r.ret, alleq(n, *a), notes=r.notes)
        ck.guarded('comparison', deq, anchor=n)

# ------------------------------------------------------------------ the index
IDX = X + 'Index'
def names_of(c, x, st):
    """the names an element is registered under: those of the elements of an array, and its own"""
    from .model_array import name_at
    ty = sty(c, st); i = info(c, x)
    own = [item(c.F(i, ty, 'name'))]
    dm = dimof(c, x); el = fld(x, c.vi(MA, 'Array'), 0)
    ix = G(c, dm, 'DimElement', 'dim_index')
    U = mk('call', 'upto', G(c, dm, 'DimElement', 'dim'))
    gen = c.fmap(mk_list([mk('spl', U)]), lambda n: [item(name_at(c, el, st, dm, call('dec', n)))])
    exp = c.fmap(c.some(ix), lambda t: [item(name_at(c, el, st, dm, t))])
    arr = ite(c.is_some(ix), exp, gen)
    return leafs.lcat(ite(is_array(c, x), arr, EMPTYL), mk_list(own))

KIND = {'PeripheralInfo': None, 'ClusterInfo': 'BlockPath', 'RegisterInfo': 'BlockPath', 'FieldInfo': 'RegisterPath'}
def path_of(c, st, parent, name):
    if st == 'PeripheralInfo': return bpath(c, name, EMPTYL)
    if st == 'ClusterInfo': return sub(c, parent, name)
    if st == 'RegisterInfo': return rpath(c, parent, name)
    return fpath(c, parent, name)
def inserted(c, cuts, st, k, parent, x, top=True):
    """what registering element x of kind st below path `parent` adds to map k"""
    if (st in cuts or st == 'ClusterInfo') and not top: return [mk('spl', call('ins:' + st, lstr(k), *([parent] if parent is not None else []), x))]
    i = info(c, x); ty = sty(c, st)
    def under(name):
        p = path_of(c, st, parent, name); segs = []
        if k == dict((b, a) for a, b in MAPS)[st]: segs.append(item(tup(p, x)))
        def each(L, st2):
            if not reaches(st2, k): return
            segs.extend(leafs.as_list(c.E, c.fmap(L, lambda e: inserted(c, cuts, st2, k, p, e, False), )).a)
        if st in ('PeripheralInfo', 'ClusterInfo'):
            L = reglist(c, i, st)
            def kid(e):
                out = []
                if reaches('RegisterInfo', k): out.append(seg_if(c.is_variant(e, RC, 'Register'), inserted(c, cuts, 'RegisterInfo', k, p, fld(e, c.vi(RC, 'Register'), 0), False)))
                if reaches('ClusterInfo', k): out.append(seg_if(c.is_variant(e, RC, 'Cluster'), inserted(c, cuts, 'ClusterInfo', k, p, fld(e, c.vi(RC, 'Cluster'), 0), False)))
                return out
            return segs + spread(c, L, kid)
        if st == 'RegisterInfo':
            o = c.F(i, ty, 'fields')
            return segs + ([seg_if(c.is_some(o), spread(c, c.some(o), lambda e: inserted(c, cuts, 'FieldInfo', k, p, e, False)))] if reaches('FieldInfo', k) else [])
        if k == 'evs':
            def ev_(e):
                n = G(c, e, 'EnumeratedValues', 'name')
                return [seg_if(c.is_some(n), [item(tup(epath(c, p, c.some(n)), e))])]
            return segs + spread(c, c.F(i, ty, 'enumerated_values'), ev_)
        return segs
    return spread(c, names_of(c, x, st), under)
def reaches(st, k):
    o = [a for a, _ in MAPS]
    lo = o.index(dict((b, a) for a, b in MAPS)[st])
    return o.index(k) >= lo and not (st == 'RegisterInfo' and k == 'clusters')
def spread(c, L, f):
    r = c.fmap(L, f)
    return leafs.segs_of(r) if r.op == 'list' else [mk('spl', r)]

def rows(l):
    """single insertions of a list, each with the loops and conditions around it"""
    out = []
    def go(sgs, wrap):
        for sg in sgs:
            if sg.op == 'if': go(sg.a[1:], lambda x, sg=sg, wrap=wrap: wrap(seg_if(sg.a[0], [x])))
            elif sg.op == 'for': go(sg.a[2:], lambda x, sg=sg, wrap=wrap: wrap(seg_for(sg.a[0], sg.a[1], [x])))
            else: out.append(wrap(sg))
    go(segs_of(l), lambda x: x)
    return out
def set_diffs(a, b, budget, path=()):
    """the conditions under which two lists are not the same insertions in any order, with the insertions only the one and only the other makes"""
    budget[0] -= 1
    if budget[0] < 0: raise Undecided()
    if a is b: return
    m = tm.top([a, b])
    sg = None
    if m is None:
        sg = next((g for l in (a, b) if l.op == 'list' for g in l.a if g.op == 'if' and g.a[0].op == 'case'), None)
        if sg is not None: m = sg.a[0].a[0]
    if m is not None:
        vs, dfl = tm.split_vals([a, b] if sg is None else [sg.a[0]], m)
        for v in list(vs) + ([tm.OTHER] if dfl else []):
            yield from set_diffs(assume(a, m, v), assume(b, m, v), budget, path + ((m, v),))
        return
    if a.op != 'list' or b.op != 'list':
        if equiv(a, b) is not None: yield path, a, b
        return
    x, y = [], rows(b)
    for r in rows(a):
        q = next((q for q in y if equiv(mk_list([r]), mk_list([q]), [2000]) is None), None)
        if q is None: x.append(r)
        else: y.remove(q)
    if x or y: yield path, mk_list(x), mk_list(y)
def same_map(ck, f, what, found, want, notes):
    """equal as lists, or with the insertions in another order"""
    ok = True; wanted = subterms(want)
    try:
        for path, a, b in set_diffs(found, want, [400]):
            ok = False
            if any(m not in wanted and tainted(m, wanted) is not None for m, _ in path) or tainted(a, wanted) is not None: continue
            return ck.same(f, what, a, b, notes=notes)
    except (Undecided, RecursionError): return ck.unk(f, what, 'comparison of the insertions not finished')
    if ok: ck.ok(f, what)
    else: ck.unk(f, what, 'the insertions found are not comparable')

def index_cuts(c, root):
    P = c.P; cuts = {}
    for k in called(P, root):
        h = P.fns[k]
        if h['kind'] != 'fn' or '{closure' in h['name'] or k == root['key']: continue
        ts = [P.types[h['locals'][i + 1]] for i in range(h['argc'])]
        ii = [i for i, t in enumerate(ts) if t['k'] == 'ref' and t['m'] and P.types[t['t']].get('n') == IDX]
        if len(ii) != 1: continue
        pi = xi = None; kind = None; bad = False
        for i, t in enumerate(ts):
            if i == ii[0]: continue
            n = P.types[t['t']]['s'] if t['k'] == 'ref' and not t['m'] else ''
            m = next((s for s in KIND if n == '%s<%s>' % (MA, sty(c, s))), None)
            if m: bad |= xi is not None; kind, xi = m, i
            elif n in (X + 'BlockPath', X + 'RegisterPath'): bad |= pi is not None; pi = i
            else: bad = True
        if bad or kind is None: continue
        want = KIND[kind]
        if (pi is None) != (want is None) or pi is not None and P.types[ts[pi]['t']]['s'] != X + want: continue
        if kind in cuts: continue
        cuts[kind] = (h, ii[0], pi, xi)
    return cuts

def index_cuts_checked(c, f):
    cuts = index_cuts(c, f)
    recs = [r for r in recursive(c.P, f)[0] if r['name'].startswith(X) or r['name'].startswith('<' + X)]
    if any(not any(r['key'] == h['key'] for h, _, _, _ in cuts.values()) for r in recs):
        # the loop over nested clusters must go through a function of a known shape
        raise SpecGap('recursive function of unknown shape')
    summ = {}
    for st, (h, ii, pi, xi) in cuts.items():
        def s(vals, st=st, ii=ii, pi=pi, xi=xi):
            v = vals[ii]
            return {ii: c.struct(IDX, {k: leafs.lcat(c.F(v, IDX, k), mk_list([mk('spl', call('ins:' + st, lstr(k), *([vals[pi]] if pi is not None else []), vals[xi]))])
                                       if reaches(st, k) else EMPTYL) for k, _ in MAPS})}
        summ[h['key']] = s
    return cuts, summ

def check_index(ck):
    c = ck.c; P = c.P
    ck.rule('index rule: every peripheral, cluster, register and field is registered under the path of its name below each path of its parent, an array also under the names of its elements, and named enumerated values below their field')
    def go():
        f = c.fn(IDX + "::<'a>::create")
        cuts, summ = index_cuts_checked(c, f)
        for st, (h, ii, pi, xi) in cuts.items():
            r = c.run(h, ['none'], key='index', summ=summ); a = c.args(h)
            for k, _ in MAPS:
                w = leafs.lcat(c.F(a[ii], IDX, k), mk_list(inserted(c, cuts, st, k, a[pi] if pi is not None else None, a[xi])) if reaches(st, k) else EMPTYL)
                same_map(ck, h, 'registers `%s` below %s' % (k, st[:-4].lower()), c.F(r.out(ii + 1), IDX, k), w, [n for n in r.notes if 'recursion' not in n])
        r = c.run(f, ['none'], key='index', summ=summ); d = c.args(f)[0]
        for k, _ in MAPS:
            w = mk_list(spread(c, G(c, d, 'Device', 'peripherals'), lambda p: inserted(c, cuts, 'PeripheralInfo', k, None, p, False)))
            same_map(ck, f, 'registers all `%s` of the device' % k, c.F(r.ret, IDX, k), w, r.notes)
    ck.guarded('index', go, anchor=IDX + '::create')

# ------------------------------------------------------------------ derivation
def contents(c, st, i):
    """guard: an element has contents of its own (which it keeps when derived)"""
    F = lambda k: c.F(i, sty(c, st), k)
    if st == 'PeripheralInfo': return c.is_some(F('registers'))
    if st == 'RegisterInfo': return c.is_some(F('fields'))
    return b_not(empty(F('children' if st == 'ClusterInfo' else 'enumerated_values')))
def target(c, st, dpath, scope):
    """path a derivation path leads to, and the scope of that"""
    if st == 'PeripheralInfo': return bpath(c, dpath, EMPTYL), None
    v = parts(dpath); n = lastof(v); i = leafs.init(v)
    if st in ('ClusterInfo', 'RegisterInfo'):
        s = ite(empty(i), scope, block(c, i))
    else:
        ii = leafs.init(i)
        b = ite(empty(ii), pf(c, scope, 'RegisterPath', 'block'), block(c, ii))
        s = ite(empty(i), scope, rpath(c, b, lastof(i)))
    return path_of(c, st, s, n), s
def ev_target(c, dpath, scope, index):
    """path of the enumerated values meant, as an option"""
    v = parts(dpath); n = lastof(v); i = leafs.init(v); ii = leafs.init(i); iii = leafs.init(ii)
    reg = pf(c, scope, 'FieldPath', 'register')
    r = get(c, index, 'registers', reg)
    ri = info(c, c.some(r))
    o = G(c, ri, 'RegisterInfo', 'fields')
    fs = ite(b_and(c.is_some(r), c.is_some(o)), c.some(o), EMPTYL)
    name = lambda f: G(c, info(c, f), 'FieldInfo', 'name')
    f0 = c.first(fs, lambda f: c.is_some(get(c, index, 'evs', epath(c, fpath(c, reg, name(f)), n))))
    plain = c.opt(f0, lambda f: SOME(epath(c, fpath(c, reg, name(f)), n)), NONE())
    rp = ite(empty(iii), rpath(c, pf(c, reg, 'RegisterPath', 'block'), lastof(ii)), rpath(c, block(c, iii), lastof(ii)))
    fp = ite(empty(ii), fpath(c, reg, lastof(i)), fpath(c, rp, lastof(i)))
    return ite(empty(i), plain, SOME(epath(c, fp, n)))
def get(c, index, k, key): return lift1(lambda q: leafs.opt_call('map_get', c.F(index, IDX, k), q), key)

DERIVES = [('PeripheralInfo', 'derive_peripheral', 'BlockPath', None), ('ClusterInfo', 'derive_cluster', 'BlockPath', 'BlockPath'), ('RegisterInfo', 'derive_register', 'RegisterPath', 'BlockPath'),
           ('FieldInfo', 'derive_field', 'FieldPath', 'RegisterPath'), ('EnumeratedValues', 'derive_enumerated_values', 'EnumPath', 'FieldPath')]
def params(c, h, st, own, scope):
    """positions of the element, the derivation path, the scope, the index and the chain among the parameters"""
    P = c.P; r = {}
    for i in range(h['argc']):
        t = P.types[h['locals'][i + 1]]
        if t['k'] != 'ref': raise SpecGap('parameter of unknown role')
        n = P.types[t['t']]['s']; b = P.types[t['t']].get('n')
        el = sty(c, st) if st == 'EnumeratedValues' else '%s<%s>' % (MA, sty(c, st))
        if n == el and t['m']: k = 'x'
        elif n == 'str': k = 'd'
        elif scope and n == X + scope and not t['m']: k = 's'
        elif b == IDX and not t['m']: k = 'i'
        elif n == 'std::vec::Vec<%s%s>' % (X, own) and t['m']: k = 'c'
        else: raise SpecGap('parameter of unknown role: ' + n)
        if k in r: raise SpecGap('two parameters of one role')
        r[k] = i
    if not {'x', 'd', 'i'} | ({'s'} if scope else set()) <= set(r): raise SpecGap('missing parameter')
    return r
DF = 'svd_rs::DeriveFrom::derive_from'
def deriver(c, f, own):
    recs = [r for r in recursive(c.P, f)[0] if r['name'].startswith(X) and any(t.get('s') == 'std::result::Result<std::option::Option<%s%s>, anyhow::Error>' % (X, own)
            or t.get('s') == 'std::result::Result<%s%s, anyhow::Error>' % (X, own) for t in [c.P.types[r['locals'][0]]])]
    if len(recs) != 1: raise SpecGap('no single recursive function')
    return recs[0]
def check_derive(ck):
    c = ck.c; P = c.P
    ck.rule('derivation rule: the element is derived from the one registered under the path meant, and on from what that one is derived from, in the scope of that one; '
            'no such element, or one the derivation already went through, is an error; the path returned is that of the element whose contents were taken')
    for st, fname, own, scope in DERIVES:
        def go(st=st, fname=fname, own=own, scope=scope):
            f = c.fn(X + fname)
            h = deriver(c, f, own); ps = params(c, h, st, own, scope)
            if 'c' not in ps: raise SpecGap('no chain of derivations')
            el = c.P.types[P.types[h['locals'][ps['x'] + 1]]['t']]['s']
            def rec(what, x, d, s, i, ch):
                v = [None] * h['argc']
                for k, y in (('x', x), ('d', d), ('s', s), ('i', i), ('c', ch)):
                    if k in ps: v[ps[k]] = y
                return call(h['name'] + what, *v) if what else leafs.res_call(h['name'], *v)
            mut = '!mut%d' % ps['x']
            op = ['none', h['name'], DF]
            def derived(x, d): return call('%s[%s]' % (DF, el), x, d)
            r = c.run(h, op, key='derive'); a = c.args(h)
            x, d, i, ch = (a[ps[k]] for k in 'xdic'); s = a[ps['s']] if 's' in ps else None
            k = dict((b, m) for m, b in MAPS)[st]
            if st == 'EnumeratedValues':
                t = ev_target(c, d, s, i); known = c.is_some(t); T = c.some(t); S = pf(c, T, 'EnumPath', 'field')
                inner = x
            else: T, S = target(c, st, d, s); known = TRUE; inner = info(c, x)
            o = get(c, i, k, T); D = c.some(o)
            nx = derived(x, D)
            p2 = G(c, D if st == 'EnumeratedValues' else info(c, D), st, 'derived_from')
            ch2 = leafs.lcat(ch, mk_list([item(T)]))
            sub_ = rec('', nx, c.some(p2), S, i, ch2)
            fine = b_and(known, b_and(b_not(member(c, ch, T)), c.is_some(o)))
            okg = b_and(fine, b_or(b_not(c.is_some(p2)), c.is_ok(sub_)))
            notes = [n for n in r.notes if 'recursion' not in n]
            def same(what, found, want, under=TRUE):
                for form, hyp, eqs in forms(c, st, d):
                    q = lambda t: subst(tm.assume_all(t, hyp), eqs)
                    ck.same(h, what + form, q(found), q(want), under=q(under), notes=notes)
            same('fails exactly for a path that leads nowhere or back', c.is_ok(r.ret), okg)
            if st == 'EnumeratedValues': val = ite(c.is_some(p2), c.okv(sub_), T)
            else:
                mine = ite(contents(c, st, inner), NONE(), SOME(T))
                sv = c.okv(sub_)
                val = ite(c.is_some(p2), ite(c.is_some(sv), sv, mine), mine)
            same('returns where the contents come from', c.okv(r.ret), val, okg)
            same('derives from the element meant, and on', r.out(ps['x'] + 1), ite(c.is_some(p2), rec(mut, nx, c.some(p2), S, i, ch2), nx), okg)
            if f is h: return
            pp = params(c, f, st, own, scope)
            r = c.run(f, op, key='derive'); a = c.args(f)
            x, d, i = (a[pp[q]] for q in 'xdi'); s = a[pp['s']] if 's' in pp else None
            if st == 'EnumeratedValues':
                n = G(c, x, st, 'name'); me = ite(c.is_some(n), mk_list([item(epath(c, s, c.some(n)))]), EMPTYL)
                pre = b_and(c.is_some(n), eq(c.some(n), d))
            else: me = mk_list([item(path_of(c, st, s, G(c, info(c, x), st, 'name')))]); pre = FALSE
            w = rec('', x, d, s, i, me)
            okg = b_and(b_not(pre), c.is_ok(w))
            ck.same(f, 'fails exactly where the derivation does', c.is_ok(r.ret), okg, notes=r.notes)
            ck.same(f, 'returns where the contents come from', c.okv(r.ret), c.okv(w), under=okg, notes=r.notes)
            ck.same(f, 'derives the element given', r.out(pp['x'] + 1), rec(mut, x, d, s, i, me), under=okg, notes=r.notes)
        ck.guarded('derivation', go, anchor=X + fname)
def forms(c, st, d):
    """the forms of a derivation path: how many names; what is the same text in that form"""
    if st == 'PeripheralInfo': return [('', {}, {})]
    r = []; hyp = {}; v = parts(d); f = firstof(c, v); h = d
    for k, nm in enumerate((' (plain name)', ' (two names)', ' (three names)')[:dict(ClusterInfo=1, RegisterInfo=1, FieldInfo=2, EnumeratedValues=3)[st]]):
        l = lastof(v); v = leafs.init(v)
        a = mk('call', 'len', v)
        r.append((nm, hyp | {a: 0}, {lastof(parts(d)): d} if k == 0 else {f: l, h: l}))
        hyp = hyp | {a: tm.OTHER}
        h = mk('call', 'rhead', h, lstr('.'))
    return r + [(' (more names)', hyp, {})]
def member(c, l, x): return c.exists(l, lambda e: eq(x, e))
