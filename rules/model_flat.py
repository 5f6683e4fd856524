"""Expansion of a device into one of single elements without derivations."""
from .data import *
from .model_expand import called, recursive, upd
from .model_paths import X, IDX, DF, DERIVES, params, path_of, member, lcat, bpath
KIN = {'RC': None, 'ClusterInfo': 'BlockPath', 'RegisterInfo': 'BlockPath', 'FieldInfo': 'RegisterPath'}
MODS = dict(PeripheralInfo='peripheral', ClusterInfo='cluster', RegisterInfo='register', FieldInfo='field')

class Flat:
    def __init__(s, c):
        s.c = c; s.P = c.P
        s.root = c.fn('svd_parser::expand')
        s.op = ['none', DF, X + "Index::<'a>::create"]
        s.derive = {}
        for st, fname, own, scope in DERIVES:
            f = c.fn(X + fname); s.derive[st] = (f, scope, own)
            for r in recursive(s.P, f)[0]:
                if r['name'].startswith(X): s.op.append(r['name'])
        s.cuts = s.find_cuts()
        recs = [r for r in recursive(s.P, s.root)[0] if r['name'].startswith(X) and r['name'] not in s.op and 'Index' not in r['name']]
        for r in recs:
            if not any(r['key'] == h['key'] for h, _ in s.cuts.values()): raise SpecGap('recursive function of unknown shape: ' + r['name'])
        s.summ = {}
        for k, (h, ps) in s.cuts.items(): s.summ[h['key']] = s.summary(k, ps)
        s.memo = {}

    def find_cuts(s):
        P, c = s.P, s.c; cuts = {}
        V = 'std::vec::Vec<%s>'
        for key in called(P, s.root):
            h = P.fns[key]
            if h['kind'] != 'fn' or '{closure' in h['name'] or not h['name'].startswith(X) or h['name'] in s.op: continue
            ps = {}; kind = None; bad = False
            for i in range(h['argc']):
                t = P.types[h['locals'][i + 1]]; n = t['s']; q = P.types[t['t']] if t['k'] == 'ref' else None
                if q is not None and t['m'] and q['s'] in (V % RC, V % ('%s<%s>' % (MA, sty(c, 'FieldInfo')))): r = 'l'
                elif q is not None and not t['m'] and q['s'] in (X + 'BlockPath', X + 'RegisterPath'): r = 'p'
                elif q is not None and not t['m'] and q.get('n') == IDX: r = 'i'
                elif q is not None and t['m'] and q['s'] == V % (X + 'BlockPath'): r = 'o'
                elif n == RC: kind, r = 'RC', 'x'
                elif any(n == '%s<%s>' % (MA, sty(c, k)) for k in KIN if k != 'RC'): kind, r = next(k for k in KIN if k != 'RC' and n == '%s<%s>' % (MA, sty(c, k))), 'x'
                else: bad = True; break
                if r in ps: bad = True
                ps[r] = i
            if bad or not {'l', 'p', 'i', 'x'} <= set(ps) or kind in cuts: continue
            if P.types[h['locals'][0]]['s'] != 'std::result::Result<(), anyhow::Error>': continue
            cuts[kind] = (h, ps)
        return cuts
    def wrap(s, kind, e):
        return single(s.c, e) if kind == 'FieldInfo' else s.c.variant(RC, 'Register', single(s.c, e))
    def key(s, kind, ps, v): return [v[ps[k]] for k in 'xpio' if k in ps]
    def exp(s, kind, vals):
        """elements a function of that kind adds: single fields or registers"""
        return leafs.lmap_term(call('exp:' + kind, *vals), lambda e: [item(s.wrap(kind, e))])
    def res(s, kind, vals): return leafs.res_call('res:' + kind, *vals)
    def summary(s, kind, ps):
        def f(v):
            k = s.key(kind, ps, v)
            return {'ret': s.res(kind, k), ps['l']: lcat(v[ps['l']], s.exp(kind, k)), **({ps['o']: v[ps['o']]} if 'o' in ps else {})}
        return f
    def run(s, f, args=None, key='flat'): return s.c.run(f, s.op, key=key, args=args, summ=s.summ)

    # ---------------------------------------------------------------- specification
    def deriv(s, st, x, d, scope, index):
        """result, and element, of deriving x"""
        f, sc, own = s.derive[st]; ps = params(s.c, f, st, own, sc)
        r = s.run(f); a = s.c.args(f)
        m = {a[ps['x']]: x, a[ps['d']]: d, a[ps['i']]: index}
        if sc: m[a[ps['s']]] = scope
        return subst(r.ret, m), subst(r.out(ps['x'] + 1), m)
    def derived(s, st, x, scope, index):
        """(fine, element, path its contents are resolved from) of an element that may be derived"""
        c = s.c; ty = sty(c, st)
        d = c.F(info(c, x) if st != 'EnumeratedValues' else x, ty, 'derived_from')
        x0 = upd(c, x, st, derived_from=lambda i: NONE()) if st != 'EnumeratedValues' else c.struct(ty, {f: c.F(x, ty, f) if f != 'derived_from' else NONE() for f in c.fields(ty)})
        isd = c.is_some(d)
        if isd is FALSE: ret, out = None, x0
        else: ret, out = s.deriv(st, x0, c.some(d), scope, index)
        ok = b_or(b_not(isd), c.is_ok(ret)) if ret is not None else TRUE
        x1 = ite(isd, out, x0) if ret is not None else x0
        if st == 'EnumeratedValues': return ok, x1, None
        own = path_of(c, st, scope, c.F(info(c, x1), ty, 'name'))
        if ret is None: return ok, x1, own, FALSE, own
        loc = c.okv(ret)
        return ok, x1, ite(b_and(isd, c.is_some(loc)), c.some(loc), own), b_and(isd, c.is_some(loc)), c.some(loc)
    def instances(s, st, x):
        """the single elements an element stands for"""
        c = s.c
        f = next(h for h in s.P.by_name['svd_rs::%s::expand' % MODS[st]])
        a = c.args(f); r = c.run(f, ['none'], key='flat')
        arr = leafs.as_list(c.E, subst(r.ret, {a[0]: fld(x, 1, 0), a[1]: fld(x, 1, 1)}))
        if x.op == 'adt': return mk_list([item(fld(x, 0, 0))]) if x.a[1] == 0 else arr
        return c.match(x, MA, {'Single': mk_list([item(fld(x, 0, 0))]), 'Array': arr})
    def flat(s, kind, x, path, index, outer, top=False):
        """(fine, list of single fields or registers) an element is expanded to"""
        c = s.c
        if kind in s.cuts and not top:
            h, ps = s.cuts[kind]
            vals = [dict(x=x, p=path, i=index, o=outer)[k] for k in 'xpio' if k in ps]
            return c.is_ok(s.res(kind, vals)), mk_list([mk('spl', call('exp:' + kind, *vals))])
        if kind == 'RC':
            k, r = fld(x, c.vi(RC, 'Cluster'), 0), fld(x, c.vi(RC, 'Register'), 0)
            a, b = s.flat('ClusterInfo', k, path, index, outer), s.flat('RegisterInfo', r, path, index, outer)
            return tuple(c.match(x, RC, {'Cluster': p, 'Register': q}) for p, q in zip(a, b))
        ok, x1, at, isloc, loc = s.derived(kind, x, path, index)
        i1 = info(c, x1); ty = sty(c, kind)
        if kind == 'PeripheralInfo':
            o = c.F(i1, ty, 'registers')
            ok = b_and(ok, b_or(b_not(c.is_some(o)), s.each('RC', c.some(o), at, index, EMPTYL)[0]))
            def new(i):
                o = c.F(i, ty, 'registers')
                return ite(c.is_some(o), SOME(s.each('RC', c.some(o), at, index, EMPTYL)[1]), NONE())
            return ok, s.instances(kind, upd(c, x1, kind, registers=new))
        if kind == 'FieldInfo':
            E = c.F(i1, ty, 'enumerated_values')
            ok = b_and(ok, c.forall(E, lambda e: s.derived('EnumeratedValues', e, at, index)[0]))
            x2 = upd(c, x1, kind, enumerated_values=lambda i: c.fmap(c.F(i, ty, 'enumerated_values'), lambda e: [item(s.derived('EnumeratedValues', e, at, index)[1])]))
            return ok, s.instances(kind, x2)
        if kind == 'RegisterInfo':
            def new(i):
                o = c.F(i, ty, 'fields')
                return ite(c.is_some(o), SOME(s.each('FieldInfo', c.some(o), at, index, None)[1]), NONE())
            o = c.F(i1, ty, 'fields')
            ok = b_and(ok, b_or(b_not(c.is_some(o)), s.each('FieldInfo', c.some(o), at, index, None)[0]))
            return ok, s.instances(kind, upd(c, x1, kind, fields=new))
        h, ps = s.cuts.get('ClusterInfo') or s.cuts.get('RC') or (None, {})
        if 'o' in ps:
            ok = b_and(ok, b_not(b_and(isloc, member(c, outer, loc))))
            outer = lcat(outer, mk_list([item(at)]))
        ok = b_and(ok, s.each('RC', c.F(i1, ty, 'children'), at, index, outer)[0])
        def regs(i):
            return s.each('RC', c.F(i, ty, 'children'), at, index, outer)[1]
        x2 = upd(c, x1, kind, children=regs)
        def out(ci):
            R = sty(c, 'RegisterInfo')
            def one(rc):
                r = fld(rc, c.vi(RC, 'Register'), 0)
                return [item(info(c, upd(c, r, 'RegisterInfo', name=lambda i: cat(c.F(ci, ty, 'name'), lstr('_'), c.F(i, R, 'name')),
                                 address_offset=lambda i: add(c.F(i, R, 'address_offset'), c.F(ci, ty, 'address_offset')))))]
            return leafs.segs_of(c.fmap(c.F(ci, ty, 'children'), one))
        return ok, c.fmap(s.instances(kind, x2), out)
    def each(s, kind, L, path, index, outer):
        c = s.c; w = 'FieldInfo' if kind == 'FieldInfo' else 'RC'
        return (c.forall(L, lambda e: s.flat(kind, e, path, index, outer)[0]),
                c.fmap(L, lambda e: leafs.segs_of(c.fmap(s.flat(kind, e, path, index, outer)[1], lambda q: [item(s.wrap(w, q))]))))

def forms(c, st, base):
    """an element: single or array, derived or not"""
    ty = sty(c, st)
    for arr in (False, True):
        for der in (False, True):
            i = c.struct(ty, {f: NONE() if f == 'derived_from' and not der else SOME(sym('$from')) if f == 'derived_from' else c.F(sym('$el'), ty, f) for f in c.fields(ty)})
            yield '%s, %s' % ('array' if arr else 'single', 'derived' if der else 'not derived'), array(c, i, sym('$dim')) if arr else single(c, i)

def check(ck):
    c = ck.c
    ck.rule('expansion rule')
    def go():
        s = Flat(c)
        for kind, (h, ps) in s.cuts.items():
            a = c.args(h)
            vals = lambda x: [x if i == ps['x'] else None for i in range(h['argc'])]
            for what, x in ([('', a[ps['x']])] if kind == 'RC' else [(' (%s)' % w, x) for w, x in forms(c, kind, None)]):
                r = s.run(h, args=vals(x) if kind != 'RC' else None, key='flat' + what)
                outer = a[ps['o']] if 'o' in ps else None
                ok, l = s.flat(kind, x, a[ps['p']], a[ps['i']], outer, top=True)
                notes = [n for n in r.notes if 'recursion' not in n]
                ck.same(h, 'fails exactly where a derivation does' + what, c.is_ok(r.ret), ok, notes=notes)
                ck.same(h, 'adds the elements in order' + what, r.out(ps['l'] + 1), lcat(a[ps['l']], c.fmap(l, lambda e: [item(s.wrap(kind, e) if kind == 'FieldInfo' else c.variant(RC, 'Register', single(c, e)))])), under=ok, notes=notes)
                if outer is not None: ck.same(h, 'leaves the enclosing clusters as they were' + what, r.out(ps['o'] + 1), outer, under=ok, notes=notes)
        D = sty(c, 'Device')
        f = s.root; r = s.run(f, key='flat'); d, = c.args(f)
        notes = [n for n in r.notes if 'recursion' not in n]
        create = next(h for h in s.P.by_name[X + "Index::<'a>::create"])
        index = call(create['name'], d)
        L = c.F(d, D, 'peripherals')
        fine = lambda e: s.flat('PeripheralInfo', e, None, index, None)[0]
        ok = c.forall(L, fine)
        ck.same(f, 'fails exactly where a derivation does', c.is_ok(r.ret), ok, notes=notes)
        new = c.struct(D, {n: c.F(d, D, n) if n != 'peripherals' else
                           c.fmap(L, lambda e: leafs.segs_of(c.fmap(s.flat('PeripheralInfo', e, None, index, None)[1], lambda q: [item(single(c, q))]))) for n in c.fields(D)})
        ck.same(f, 'replaces the peripherals, in order, and nothing else', c.okv(r.ret), new, under=ok, notes=notes)
    ck.guarded('expansion', go, anchor='svd_parser::expand')
