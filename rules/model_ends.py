"""Reading, writing, validating and iterating end: every recursion goes down, every loop uses something up."""
import itertools
from .data import *
from .model_expand import called
from .model_term import sccs, Loops, NEXT, leaves_of
from .model_iter import subst_mrefs
from .spec import tainted, subterms, SpecGap, Unknown

def generated(f): return f['derived'] or '::_::' in f['name']
def graph(P):
    g = {}
    for f in P.fns.values():
        if f['cr'].startswith('svd') and f['kind'] == 'fn' and not generated(f) and f['key'] not in g: g.update(called(P, f))
    return g

# ---------------------------------------------------------------- how deep a value lies in another
def least(xs):
    xs = list(xs)
    return None if not xs or None in xs else min(xs)
def into(v, a, p=TRUE, n=0):
    """least number of steps into a at which v lies; None if it need not lie in a"""
    if n > 60: return None
    if v is a: return 0
    def up(x): return None if x is None else x + 1
    if v.op == 'case':
        return least(into(l, a, b_and(p, g), n + 1) for l, g in leaves_of(tm.assume_guard(v, p)) if b_and(p, g) is not FALSE)
    if v.op == 'elem': return elems(v.a[0], a, p, n + 1)
    if v.op == 'fld':
        if v.a[0].op == 'first': return elems(v.a[0].a[0], a, p, n + 1)
        b = v.a[0]
        if b.op == 'call' and b.a[0] in ('last', 'head', 'get', 'pop'): return elems(b.a[1], a, p, n + 1)
        return up(into(b, a, p, n + 1))
    return None
def elems(L, a, p, n):
    """the same, of the elements of a list"""
    if n > 60: return None
    if L.op == 'case': return least(elems(l, a, b_and(p, g), n + 1) for l, g in leaves_of(tm.assume_guard(L, p)) if b_and(p, g) is not FALSE)
    if L.op == 'list': return least(x for s in L.a for x in seg(s, a, p, n + 1)) if L.a else 1 << 20
    if L.op == 'call' and L.a[0] in ('rev', 'sort', 'usort', 'tail', 'init', 'take', 'skip'): return elems(L.a[1], a, p, n + 1)
    if L.op == 'call' and L.a[0] in ('children', 'descendants', 'ancestors'):
        if L.a[0] != 'children': return None
        x = into(L.a[1], a, p, n + 1)
    else: x = into(L, a, p, n + 1)
    return None if x is None else x + 1
def seg(s, a, p, n):
    if s.op == 'item': return [into(s.a[0], a, p, n)]
    if s.op == 'spl': return [elems(s.a[0], a, p, n)]
    if s.op == 'if': return [y for x in s.a[1:] for y in seg(x, a, b_and(p, s.a[0]), n)]
    if s.op == 'for': return [y for x in s.a[2:] for y in seg(x, a, p, n)]
    return [None]

# ---------------------------------------------------------------- recursion
def component(ck, comp):
    c = ck.c; P = c.P
    fs = sorted((P.fns[k] for k in comp if '{closure' not in P.fns[k]['name'] and P.fns[k]['cr'].startswith('svd')), key=lambda f: f['name'])
    mine = {f['name'] for f in fs}
    other = [f['name'] for f in P.fns.values() if f['cr'].startswith('svd') and f['name'].split('::')[-1] in ('validate', 'validate_all') and f['name'] not in mine]
    edges = []
    for f in fs:
        r = c.run(f, sorted(mine) + other, key='ends'); a = c.args(f); n = 0
        for nm, key, vals, p, _, _ in r.calls:
            if key in comp: edges.append((f, P.fns[key], a, vals, p, r.notes)); n += 1
        if not n: raise SpecGap('calls back from %s not found' % f['name'])
    best = None
    d = {(n, i, j): into(vals[j], a[i], p) for n, (f, h, a, vals, p, _) in enumerate(edges) for i in range(f['argc']) for j in range(h['argc'])}
    for pick in itertools.product(*[range(f['argc']) for f in fs]):
        at = dict(zip((f['key'] for f in fs), pick)); bad = []; flat = {}
        for n, (f, h, *_) in enumerate(edges):
            x = d[n, at[f['key']], at[h['key']]]
            if x is None: bad.append(n)
            elif x == 0: flat.setdefault(f['key'], set()).add(h['key'])
        loop = set().union(*sccs({k: flat.get(k, set()) for k in comp})) if flat else set()
        bad += [n for n, e in enumerate(edges) if n not in bad and d[n, at[e[0]['key']], at[e[1]['key']]] == 0 and e[0]['key'] in loop and e[1]['key'] in loop]
        if best is None or len(bad) < len(best): best = bad
        if not best: break
    for n, (f, h, a, vals, p, notes) in enumerate(edges):
        what = 'the call of %s goes down' % re.sub(r'.*::(?=\w+::\w+$)', '', h['name'])
        if n not in best: ck.ok(f, what); continue
        t = next((x for x in [tainted(p)] + [tainted(v) for v in vals] if x is not None), None) or next((x for x in notes if 'recursion' not in x), None)
        if t is not None: ck.unk(f, what, 'not interpreted: %s' % (t if isinstance(t, str) else tm.show(t, 0, 4)[:160]))
        else: ck.viol(f, what, 'called again with %s, which need not be a part of what it was called with, when [%s]' % (', '.join(tm.show(v, 0, 3)[:60] for v in vals), tm.show(p, 0, 4)[:200]))

# ---------------------------------------------------------------- loops
def uses_up(c, f, n, exits):
    """all n loops of a function take one element from a list and put back but parts of it: None if so, else (sure, reason)"""
    r = c.run(f, key='ends', limit=20)
    ts = [r.ret] + [o for o in (r.out(i + 1) for i in range(f['argc'])) if o is not None]
    sigs = {}
    for t in ts:
        for x in subterms(t):
            if x.op == 'loopsig': sigs.setdefault(x.a[0], set()).add(x.a[1])
    if len(sigs) != n: return False, 'form not known'
    for sig, gs in sigs.items():
        why = False, 'nothing it takes from'
        on = TRUE
        for g in gs: on = b_and(on, b_not(g))
        for init, lv, nxt in sig:
            for st in states(lv, nxt):
                v = falls(c, r, lv, st, at_path(nxt, lv, st), on)
                if v is None: why = None
                elif why is not None and v[0]: why = v
        if why is not None: return why[0] and len(sig) == 1 and len(gs) >= exits, why[1]
    return None
def dead(f, i):
    return f['b'][i]['t'][0] == 'unreach'
def states(lv, nxt):
    """the lists of the loop's state that are looked at"""
    yield lv
    for x in sorted(subterms(nxt), key=lambda t: t.id):
        b = x
        while b.op == 'fld': b = b.a[0]
        if b is lv and x is not lv: yield x
def at_path(v, lv, st):
    if st is lv: return v
    return fld(at_path(v, lv, st.a[0]), *st.a[1:])
def ways(l, g, st, budget=60):
    """the list on each path, the conditions of what is put back resolved as far as they concern the list itself"""
    out = []; work = [(l, g)]
    while work:
        if len(out) + len(work) > budget: return None
        l, g = work.pop()
        if g is FALSE or tm.equiv(g, FALSE) is None: continue
        l = tm.assume_guard(l, g)
        if l.op == 'case':
            work += [(x, b_and(g, h)) for x, h in leaves_of(l)]; continue
        if l.op == 'list':
            q = next((s for s in l.a if s.op == 'if' and any(x is st or x.op == 'call' and x.a[0] in ('init', 'tail') and x.a[1] is st for y in s.a[1:] for x in own(y))), None)
            if q is not None:
                work += [(l, b_and(g, q.a[0])), (l, b_and(g, b_not(q.a[0])))]; continue
        out.append((l, g))
    return out
def own(s):
    """lists spliced in as they are"""
    if s.op == 'spl': yield s.a[0]
    elif s.op == 'if':
        for x in s.a[1:]: yield from own(x)
def falls(c, r, lv, st, nxt, on):
    ls = ways(nxt, on, st); bad = None
    if not ls: return False, 'form not known'
    for l, g in ls:
        if l.op != 'list':
            if l.op == 'call' and l.a[0] in ('init', 'tail') and l.a[1] is st: continue
            if l is st and st is not lv and tainted(g, subterms(nxt) | {lv}) is None: return True, 'takes nothing from the list when [%s]' % tm.show(g, 0, 5)[:200]
            return False, 'form not known'
        front = [s for s in l.a if s.op == 'spl' and s.a[0].op == 'call' and s.a[0].a[0] in ('init', 'tail') and s.a[0].a[1] is st]
        if len(front) != 1:
            if st is not lv and any(s.op == 'spl' and s.a[0] is st for s in l.a) and tainted(g, subterms(nxt) | {lv}) is None: return True, 'takes nothing from the list when [%s]' % tm.show(g, 0, 5)[:200]
            return False, 'form not known'
        top = c.some(leafs.opt_last(st)) if front[0].a[0].a[0] == 'init' else c.some(tm.HEAD[0](st))
        for s in l.a:
            if s is front[0]: continue
            s = subst_mrefs(c, s, r, top)
            v = seg(s, top, g, 0)
            if any(x is None or x < 1 for x in v):
                if tainted(s, {lv}) is None: bad = True, 'puts %s back, which need not be a part of the element taken' % tm.show(s, 0, 5)[:200]
                elif bad is None: bad = False, 'form not known'
    return bad

def check(ck):
    c = ck.c; P = c.P
    ck.rule('recursion rule: every cycle of calls between readers, writers, validators and iterators hands on a proper part of what it was called with')
    ck.rule('loop rule: every cycle of a function body takes the next element of a finite sequence, or an element of a list to which it adds nothing but parts of that element')
    g = graph(P); l = Loops(ck, g)
    for comp in sorted(sccs(g), key=lambda k: min(k)):
        own = [P.fns[k] for k in comp if P.fns[k]['cr'].startswith('svd')]
        if not own or all(generated(f) for f in own): continue
        name = sorted(f['name'] for f in own)[0]
        if any(f['name'].startswith('svd_parser::expand') for f in own): continue   # with its own measure: C34
        if all(f['ti'] == NEXT for f in own):
            for f in own:
                def one(f=f):
                    if l.consumes(f) or l.counts(f): ck.ok(f, 'starts over only after an element was taken')
                    else: raise SpecGap('form not known')
                ck.guarded('starts over only after an element was taken', one, anchor=f['name'])
            continue
        ck.guarded('recursion', lambda: component(ck, comp), anchor=name)
    for k in sorted(g):
        f = P.fns[k]
        if not f['cr'].startswith('svd') or generated(f): continue
        left, n = l.check(f)
        c.analysed[f['name']] = sum(1 for b in f['b'] if not b['cl'])
        if n and not left: ck.ok(f, 'its loops end')
        elif left:
            shut = [comp for comp, why in left if not any(x not in comp for i in comp for x in l.graph(f)[i])]
            for comp in shut: ck.viol(f, 'its loops end', 'a loop without a way out at %s' % f['b'][min(comp)]['sp'])
            if shut: continue
            def one(f=f, left=left):
                why = uses_up(c, f, len(left), max(len({x for i in comp for x in l.graph(f)[i] if x not in comp and not dead(f, x)}) for comp, _ in left))
                if why is None: ck.ok(f, 'its loops use up a list')
                elif why[0]: ck.viol(f, 'its loops end', why[1])
                else: raise SpecGap('%s; %s' % (left[0][1], why[1]))
            ck.guarded('its loops end', one, anchor=f['name'])
        for b in f['b']:
            if b['cl']: continue
            q = l.callee(b)
            if q is None or not q['d'].startswith(('std::iter::Iterator::', 'std::iter::Extend::', 'std::iter::FromIterator::')): continue
            w = q['d'].split('::')[-1]
            if w not in ('collect', 'count', 'last', 'fold', 'for_each', 'sum', 'product', 'max', 'min', 'extend', 'from_iter', 'partition', 'unzip', 'all', 'any', 'find', 'find_map', 'position', 'try_for_each'): continue
            tys = q['a'][:1] if 'Iterator::' in q['d'] and w != 'from_iter' else q['a'][1:][-1:]
            v = [l.finite(y) for y in tys if P.types[P.strip_ref(y)]['k'] == 'adt']
            if False in v and w not in ('all', 'any', 'find', 'find_map', 'position', 'try_for_each'): ck.viol(f, 'runs over something finite', '%s of an endless sequence at %s' % (w, b['sp']))
            elif v and all(v): ck.ok(f, 'runs over something finite')
            elif v: ck.unk(f, 'runs over something finite', 'the sequence %s is not known to end' % P.types[tys[0]]['s'][:120])
