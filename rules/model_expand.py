"""Expansion of a device: inherited properties, paths, arrays, derivations."""
from .data import *
from . import model_effects as me

def called(P, fn):
    """call graph below fn (closures count as called where they are built)"""
    g = {}; st = [fn['key']]
    def out(k):
        f = P.fns[k]
        for x, _ in me.callees(P, f):
            if 'static' in x: continue
            for d in me.fndefs(P, x['ty'], set()):
                if d['k'] in P.fns: yield d['k']
        for b in f['b']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                    k2 = P.types[s[2][1][1]].get('key') or P.types[s[2][1][1]].get('c')
                    if isinstance(k2, dict): k2 = k2['k']
                    if k2 in P.fns: yield k2
    while st:
        k = st.pop()
        if k in g: continue
        g[k] = set(out(k)); st.extend(g[k])
    return g
def recursive(P, fn):
    g = called(P, fn)
    def reach(a):
        seen, st = set(), list(g[a])
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st.extend(g[x])
        return seen
    return [P.fns[k] for k in g if k in reach(k)], g

def upd(c, x, n, **vals):
    """element (single or array) x of kind n with some properties replaced"""
    ty = sty(c, n)
    def one(i): return c.struct(ty, {f: vals[f](i) if f in vals else c.F(i, ty, f) for f in c.fields(ty)})
    return c.match(x, MA, {'Single': single(c, one(fld(x, 0, 0))), 'Array': array(c, one(fld(x, 1, 0)), fld(x, 1, 1))})
def inherit(c, own, outer):
    ty = sty(c, 'RegisterProperties')
    return c.struct(ty, {f: ite(c.is_some(c.F(own, ty, f)), c.F(own, ty, f), c.F(outer, ty, f)) for f in c.fields(ty)})

def check_properties(ck):
    c = ck.c; P = c.P
    ck.rule('property inheritance: every register without derivation gets, property by property, its own value or else the one of the nearest enclosing cluster, peripheral or device; '
            'elements with a derivation and what they contain stay as they are, and so does everything else')
    def both():
        f = c.fn('svd_parser::expand_properties')
        recs, g = recursive(P, f)
        cand = []
        if not recs:
            # nothing recursive: nested clusters are only reached if something handles any depth; the function over a list of registers and clusters, if any, is taken for it
            recs = [P.fns[k] for k in g if k != f['key'] and P.fns[k]['kind'] == 'fn' and '{closure' not in P.fns[k]['name']]
        for h in recs:
            ts = [P.types[h['locals'][i + 1]] for i in range(h['argc'])]
            ls = [i for i, t in enumerate(ts) if t['k'] == 'ref' and t['m'] and 'RegisterCluster' in t['s']]
            ps = [i for i, t in enumerate(ts) if 'RegisterProperties' in t['s']]
            t = P.types[ts[ls[0]]['t']] if ls else None
            if len(ls) == 1 and len(ps) == 1 and len(ts) == 2 and (t['k'] == 'slice' or t.get('n') == 'std::vec::Vec'): cand.append((h, ls[0], ps[0]))
        if not cand and not recursive(P, f)[0]: cand = [(None, 0, 1)]
        if len(cand) != 1: raise SpecGap('no single recursive function over registers and clusters')
        h, li, pi = cand[0]
        if h is None: return device(f, ['none'], lambda l, d: call('deep!mut0', l, d))
        op = ['none', h['name']]
        r = c.run(h, op); a = c.args(h)
        L, dflt = a[li], a[pi]
        name = h['name']
        def rec(l, d):
            v = [None, None]; v[li] = l; v[pi] = d
            return call('%s!mut%d' % (name, li), *v)
        def element(x):
            k, rg = fld(x, c.vi(RC, 'Cluster'), 0), fld(x, c.vi(RC, 'Register'), 0)
            def derived(y, n): return c.is_some(G(c, info(c, y), n, 'derived_from'))
            kk = upd(c, k, 'ClusterInfo', children=lambda i: rec(G(c, i, 'ClusterInfo', 'children'), inherit(c, G(c, i, 'ClusterInfo', 'default_register_properties'), dflt)))
            rr = upd(c, rg, 'RegisterInfo', properties=lambda i: inherit(c, G(c, i, 'RegisterInfo', 'properties'), dflt))
            return c.match(x, RC, {'Cluster': ite(derived(k, 'ClusterInfo'), x, c.variant(RC, 'Cluster', kk)), 'Register': ite(derived(rg, 'RegisterInfo'), x, c.variant(RC, 'Register', rr))})
        ck.same(h, 'registers take, clusters pass on what the enclosing elements give', r.out(li + 1), c.fmap(L, lambda x: [item(element(x))]), notes=[n for n in r.notes if 'recursion' not in n])
        device(f, op, rec)
    def device(f, op, rec):
        r = c.run(f, op, key='expprop'); d = c.args(f)[0]
        D, PI = sty(c, 'Device'), 'PeripheralInfo'
        def per(x):
            def regs(i):
                v = G(c, i, PI, 'registers')
                return ite(c.is_some(v), SOME(rec(c.some(v), inherit(c, G(c, i, PI, 'default_register_properties'), c.F(d, D, 'default_register_properties')))), v)
            return ite(c.is_some(G(c, info(c, x), PI, 'derived_from')), x, upd(c, x, PI, registers=regs))
        for k in c.fields(D):
            want = c.F(d, D, k)
            if k == 'peripherals': want = c.fmap(want, lambda x: [item(per(x))])
            ck.same(f, 'the peripherals pass on what the device and they give' if k == 'peripherals' else 'device property `%s` stays as it is' % k, c.F(r.out(1), D, k), want, notes=r.notes)
    ck.guarded('expand_properties', both, anchor='svd_parser::expand_properties')
