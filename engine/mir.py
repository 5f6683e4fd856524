"""Loading of the MIR dump: types, functions, control-flow structure."""
import json, re

class Prog:
    def __init__(s, path):
        s.types = {}; s.fns = {}; s.roots = []; s.staticfns = {}; s.statics = {}; s.impls = []; s.generic = []; s.attrs = {}; s.end = None
        for line in open(path):
            r = json.loads(line)
            k = r['rec']
            if k == 'ty': s.types[r['id']] = r
            elif k == 'fn': s.fns[r['key']] = r
            elif k == 'root': s.roots.append(r['key'])
            elif k == 'impl': s.impls.append(r)
            elif k == 'generic': s.generic.append(r['n'])
            elif k == 'attrs': s.attrs[r['n']] = r
            elif k == 'static': s.statics[r['n']] = r
            elif k == 'staticfn': s.staticfns.setdefault(r['n'], []).append(r['key'])
            elif k == 'end': s.end = r
        assert s.end is not None, 'truncated dump'
        s._inh = {}
        s._cfg = {}
        s.by_name = {}
        for f in s.fns.values():
            s.by_name.setdefault(f['name'], []).append(f)
        s.eqs = {}
        for f in s.fns.values():
            if f['ti'] == 'std::cmp::PartialEq::eq' and not f['derived'] and f['cr'].startswith('svd'):
                a, b = (s.strip_ref(f['locals'][i]) for i in (1, 2))
                s.eqs[(s.types[a]['s'], s.types[b]['s'])] = f['key']
        s.adt_by_name = {}
        for t in s.types.values():
            if t['k'] == 'adt': s.adt_by_name.setdefault(t['n'], t)

        s._impl = {}
        for f in s.fns.values():
            if f['cr'].startswith('svd') and f['kind'] == 'fn':
                if f['ti'] in ('std::fmt::Display::fmt',):
                    s._impl[(f['ti'], s.types[s.strip_ref(f['locals'][1])]['s'])] = f['key']
                elif f['ti'] == 'std::default::Default::default':
                    s._impl[(f['ti'], s.types[f['locals'][0]]['s'])] = f['key']
                elif f['ti'] == 'std::str::FromStr::from_str':
                    t = s.types[f['locals'][0]]
                    s._impl[(f['ti'], s.types[t['a'][0]]['s'])] = f['key']

    def ty(s, i): return s.types[i]
    def impl_of(s, ti, ty): return s._impl.get((ti, s.types[ty]['s']))
    def fromstr_of(s, ty): return s.impl_of('std::str::FromStr::from_str', ty)
    def default_of(s, ty): return s.impl_of('std::default::Default::default', ty)
    def strip_ref(s, i):
        while s.types[i]['k'] in ('ref', 'ptr'): i = s.types[i]['t']
        return i
    def inhabited(s, i):
        if i in s._inh: return s._inh[i]
        s._inh[i] = True
        t = s.types[i]
        k = t['k']
        r = True
        if k == 'never': r = False
        elif k == 'adt':
            if t['e']: r = len(s.dom(i)) > 0
            else: r = all(s.inhabited(f[1]) for f in t['v'][0]['f'] if f[1] >= 0) if t['v'] else True
        elif k == 'tuple': r = all(s.inhabited(x) for x in t['a'])
        s._inh[i] = r
        return r
    def dom(s, i):
        """inhabited variants of an enum type, by variant index"""
        t = s.types[i]
        return tuple(v for v in range(len(t['v'])) if all(f[1] < 0 or s.inhabited(f[1]) for f in t['v'][v]['f']))
    def variant_index(s, i, name):
        for j, v in enumerate(s.types[i]['v']):
            if v['n'] == name: return j
        raise KeyError(name)
    def field_index(s, tyname, field, var=0):
        t = s.adt_by_name[tyname]
        for j, f in enumerate(t['v'][var]['f']):
            if f[0] == field: return j
        raise KeyError((tyname, field))
    def find(s, pat, cr=None):
        rx = re.compile(pat)
        return [f for f in s.fns.values() if rx.search(f['name']) and (cr is None or f['cr'] == cr)]

    def cfg(s, key):
        c = s._cfg.get(key)
        if c is None:
            c = s._cfg[key] = Cfg(s.fns[key])
        return c

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return list(dict.fromkeys([b for _, b in t[3]] + [t[4]]))
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] >= 0 else []
    if k == 'assert': return [t[3]]
    return []

class Cfg:
    def __init__(s, fn):
        B = fn['b']
        n = len(B)
        s.succ = [succs(b['t']) for b in B]
        # reachable, rpo
        seen = set(); post = []
        st = [(0, iter(s.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(s.succ[x]))); break
            else:
                post.append(b); st.pop()
        s.rpo = post[::-1]
        pos = {b: i for i, b in enumerate(s.rpo)}
        s.pred = {b: [] for b in seen}
        for b in seen:
            for x in s.succ[b]: s.pred[x].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = p, d
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                    d = x
                if idom.get(b) != d: idom[b] = d; ch = True
        s.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        s.dominates = dom
        s.loops = {}
        for b in seen:
            for x in s.succ[b]:
                if dom(x, b):
                    body = s.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y in body: continue
                        body.add(y)
                        st.extend(s.pred[y])
        # irreducible edges are not expected
        s._topo = {}
        s._live = None
        s.fn = fn

    def region(s, header):
        """(topological order of the blocks of loop `header` (None: whole fn) with
        inner loops collapsed to their headers, map block -> inner header)"""
        if header in s._topo: return s._topo[header]
        blocks = set(s.rpo) if header is None else set(s.loops[header])
        inner = {}
        hs = [h for h in s.loops if h in blocks and h != header]
        # outermost inner loops only
        hs = [h for h in hs if not any(h2 != h and h in s.loops[h2] and h2 in hs and s.loops[h] <= s.loops[h2] for h2 in hs)]
        for h in hs:
            for b in s.loops[h]: inner[b] = h
        rep = lambda b: inner.get(b, b)
        nodes = {rep(b) for b in blocks}
        edges = {n: set() for n in nodes}
        indeg = {n: 0 for n in nodes}
        for b in blocks:
            for x in s.succ[b]:
                if x in blocks and x != header:
                    a, c = rep(b), rep(x)
                    if a != c and c not in edges[a]:
                        edges[a].add(c); indeg[c] += 1
        order = []
        pos = {b: i for i, b in enumerate(s.rpo)}
        ready = sorted([n for n in nodes if indeg[n] == 0], key=lambda b: -pos[b])
        while ready:
            x = ready.pop()
            order.append(x)
            for y in edges[x]:
                indeg[y] -= 1
                if indeg[y] == 0:
                    ready.append(y); ready.sort(key=lambda b: -pos[b])
        assert len(order) == len(nodes), 'irreducible control flow'
        s._topo[header] = (order, inner)
        return s._topo[header]

    def live_in(s, block):
        """locals that may be read from `block` on before being overwritten
        (address-taken locals count as always live)"""
        if s._live is None: s._compute_live()
        return s._live[block] | s.addr
    def _compute_live(s):
        B = s.fn['b']
        use = {}; de = {}
        s.addr = set()
        def pl_use(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d: u.add(e[1])
        def op_use(o, u, d):
            if o[0] in 'CM': pl_use(o[1], u, d)
        for b in s.rpo:
            u = set(); d = set()
            for st in B[b]['s']:
                if st[0] != '=': 
                    pl_use(st[1], u, d); continue
                r = st[2]
                if r[0] in ('ref',):
                    pl_use(r[2], u, d)
                    if '*' not in r[2][1]: s.addr.add(r[2][0])
                elif r[0] == 'rawptr':
                    pl_use(r[1], u, d)
                    if '*' not in r[1][1]: s.addr.add(r[1][0])
                elif r[0] == 'discr': pl_use(r[1], u, d)
                elif r[0] == 'agg':
                    for o in r[2]: op_use(o, u, d)
                else:
                    for o in r[1:]:
                        if isinstance(o, list) and o and o[0] in ('C', 'M', 'K'): op_use(o, u, d)
                if st[1][1]: pl_use(st[1], u, d)
                else: d.add(st[1][0])
            t = B[b]['t']
            if t[0] == 'switch': op_use(t[1], u, d)
            elif t[0] == 'call':
                op_use(t[1], u, d)
                for o in t[2]: op_use(o, u, d)
                if t[3][1]: pl_use(t[3], u, d)
                else: d.add(t[3][0])
            elif t[0] == 'assert': op_use(t[1], u, d)
            elif t[0] == 'ret':
                if 0 not in d: u.add(0)
            use[b] = u; de[b] = d
        live = {b: set() for b in s.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                o = set()
                for x in s.succ[b]: o |= live[x]
                n = use[b] | (o - de[b])
                if n != live[b]: live[b] = n; ch = True
        s._live = live
