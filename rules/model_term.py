"""Termination of expansion: every recursion has a measure that falls, every loop runs over something finite."""
import itertools
from .data import *
from .model_expand import called, recursive, upd
from .model_paths import X, IDX, DF, member, lcat
from .spec import tainted, subterms, SpecGap, Unknown
from . import model_effects as me
NEXT = 'std::iter::Iterator::next'
TAKES = (NEXT, 'std::iter::DoubleEndedIterator::next_back', 'std::iter::Iterator::find', 'std::iter::Iterator::find_map', 'std::iter::Iterator::nth')

def sccs(g):
    """strongly connected components with a cycle"""
    idx = {}; low = {}; st = []; on = set(); out = []; n = [0]
    def go(v):
        work = [(v, iter(g.get(v, ())))]
        idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(g.get(w, ())))); break
                elif w in on: low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        w = st.pop(); on.discard(w); c.add(w)
                        if w == u: break
                    if len(c) > 1 or u in g.get(u, ()): out.append(c)
    for v in g:
        if v not in idx: go(v)
    return out

# ---------------------------------------------------------------- measures
def implied(p, g, deep=6):
    """the path cannot be taken unless g"""
    q = b_and(p, b_not(g))
    if q is FALSE: return True
    if tm.equiv(q, FALSE) is None: return True
    x = nested(q) if deep else None
    if x is None: return False
    vs = {k for t in subterms(q) if t.op == 'case' and t.a[0] is x for k, _ in t.a[1]}
    vs = [v for v in vs if x not in tm.DOM or v in tm.DOM[x]] + ([] if x in tm.DOM and set(tm.DOM[x]) <= vs else [tm.OTHER])
    return all(implied(tm.assume(p, x, v), tm.assume(g, x, v), deep - 1) for v in vs)
def nested(q):
    """a condition tested inside of another one"""
    def plain(t): return not any(x.op == 'case' for x in subterms(t))
    at = {t.a[0] for t in subterms(q) if t.op == 'case'}
    for a in sorted(at, key=lambda t: t.id):
        for t in sorted(subterms(a), key=lambda t: t.id):
            if t.op == 'case' and not tm.fv(t.a[0]) and plain(t.a[0]): return t.a[0]
    return None
def inside(v, a):
    """None, or how many steps into a the value v lies"""
    n = 0
    while v is not a:
        if v.op == 'elem': v = v.a[0]; n += 1
        elif v.op == 'fld': v = v.a[0]; n += 1
        else: return None
    return n
def leaves_of(v): return [(l, g) for l, g in tm.leaves(v) if l is not BOT]
def depth(v, a, p):
    """least number of steps into a at which v lies, on the path p; None if it need not lie in a"""
    r = None
    for l, g in leaves_of(tm.assume_guard(v, p)):
        if b_and(p, g) is FALSE: continue
        n = inside(l, a)
        if n is None: return None
        r = n if r is None else min(r, n)
    return r
def grown(v, a):
    """elements v has besides all those of a; None if it may lack some"""
    if v is a: return []
    if v.op != 'list': return None
    if not any(s.op == 'spl' and s.a[0] is a for s in v.a): return None
    return [s.a[0] for s in v.a if s.op == 'item']


def facts(p):
    """the path, with what it says of first elements spelled out"""
    seen = set()
    for _ in range(3):
        new = TRUE
        for t in subterms(p):
            if t.op == 'disc' and t.a[0].op == 'first' and t not in seen:
                seen.add(t); f = t.a[0]
                new = b_and(new, b_or(b_not(is_var(t.a[0], 1)), subst(f.a[2], {elem(f.a[0], f.a[1]): fld(f, 1, 0)})))
        if new is TRUE: break
        p = b_and(p, new)
    return p

# ---------------------------------------------------------------- recursion
class Term:
    def __init__(s, ck):
        s.ck = ck; s.c = ck.c; s.P = ck.c.P
        s.roots = [f for f in s.P.fns.values() if f['kind'] == 'fn' and '{closure' not in f['name'] and
                   (f['name'] in ('svd_parser::expand', 'svd_parser::expand_properties') or f['name'].startswith(X + 'derive_') or f['name'].startswith(X + 'Index'))]
        s.g = {}
        for r in s.roots: s.g.update(called(s.P, r))
        s.comps = sccs(s.g)
        s.derivers = s.located()
    def project(s, k): return s.P.fns[k]['cr'].startswith('svd')

    def located(s):
        """functions deriving a cluster that tell where its contents come from"""
        P, c = s.P, s.c; r = {}
        for f in P.fns.values():
            if f['kind'] != 'fn' or not f['name'].startswith(X) or '{closure' in f['name']: continue
            if P.types[f['locals'][0]]['s'] != 'std::result::Result<std::option::Option<%sBlockPath>, anyhow::Error>' % X: continue
            x = i = None
            for k in range(f['argc']):
                t = P.types[f['locals'][k + 1]]
                if t['k'] != 'ref': continue
                q = P.types[t['t']]
                if t['m'] and q['s'] == '%s<%s>' % (MA, sty(c, 'ClusterInfo')): x = k
                elif q.get('n') == IDX and not t['m']: i = k
            if x is not None and i is not None: r[f['key']] = (f, x, i)
        return r
    def children(s, x): return G(s.c, info(s.c, x), 'ClusterInfo', 'children')
    def lemma(s, f, x):
        """a derivation that tells no place leaves the children alone"""
        c = s.c
        def summ(v):
            ret = leafs.res_call('loc:' + f['name'], *v); q = c.okv(ret)
            o = call('out:' + f['name'], *v)
            return {'ret': ret, x: upd(c, o, 'ClusterInfo', children=lambda j: ite(c.is_some(q), c.F(j, sty(c, 'ClusterInfo'), 'children'), s.children(v[x])))}
        return summ
    def registered(s, index, k, maps=None):
        r = FALSE
        for m in maps or s.c.fields(IDX):
            r = b_or(r, s.c.is_some(lift1(lambda q: leafs.opt_call('map_get', s.c.F(index, IDX, m), q), k)))
        return r
    def known_places(s, p):
        """the places told by derivations are registered: as facts about the terms of the path"""
        for t in subterms(p):
            if t.op == 'call' and t.a[0].startswith('loc:'):
                f, x, i = next(v for v in s.derivers.values() if 'loc:' + v[0]['name'] == t.a[0])
                yield s.c.some(s.c.okv(t)), t.a[1 + i], s.c.is_some(s.c.okv(t))

    def prove_lemma(s):
        """place told -> registered; no place told -> children as they were"""
        c, ck = s.c, s.ck
        for f, x, i in s.derivers.values():
            summ = {k: s.lemma(h, y) for k, (h, y, _) in s.derivers.items()}
            def told(f=f, x=x, i=i):
                r = s.c.run(f, ['none', DF], key='told', summ=summ); a = c.args(f)
                v = c.okv(r.ret); given = c.is_ok(r.ret)
                for k, idx, some in s.known_places(b_and(given, c.is_some(v))):
                    given = b_and(given, b_or(b_not(some), s.registered(idx, k, ['clusters'])))
                ck.same(f, 'a place told is registered', lift1(lambda l: b_or(b_not(c.is_some(l)), s.registered(a[i], c.some(l), ['clusters'])), v), TRUE, under=given, notes=r.notes)
            def own(f=f, x=x, i=i):
                r = s.c.run(f, ['none'], key='term', summ=summ); a = c.args(f)
                v = c.okv(r.ret); given = c.is_ok(r.ret)
                ck.same(f, 'no place told: the contents are its own', s.children(r.out(x + 1)), s.children(a[x]), under=b_and(given, b_not(c.is_some(v))), notes=r.notes)
            ck.guarded('place of the contents', told, anchor=f['name'])
            ck.guarded('place of the contents', own, anchor=f['name'])

    def mutlists(s, f):
        """parameters that are lists of paths"""
        r = []
        for i in range(f['argc']):
            t = s.P.types[f['locals'][i + 1]]
            if t['k'] == 'ref' and t['m'] and s.P.types[t['t']]['s'].startswith('std::vec::Vec<' + X): r.append(i)
        return r
    def component(s, comp):
        c, ck, P = s.c, s.ck, s.P
        fs = sorted((P.fns[k] for k in comp if '{closure' not in P.fns[k]['name']), key=lambda f: f['name'])
        names = ', '.join(f['name'] for f in fs)
        lists = {f['key']: s.mutlists(f) for f in fs}
        def back(f):
            return lambda v: {'ret': leafs.res_call(f['name'], *v) if P.types[f['locals'][0]].get('n') == 'std::result::Result' else call(f['name'], *v), **{i: v[i] for i in lists[f['key']]}}
        summ = {f['key']: back(f) for f in fs if lists[f['key']] and len(fs) > 1}
        summ.update({k: s.lemma(h, x) for k, (h, x, _) in s.derivers.items() if k not in comp})
        op = ['none', DF] + [f['name'] for f in fs]
        for k in s.g:    # what other functions do to their arguments has no part in it
            f = P.fns[k]
            if s.project(k) and k not in comp and f['kind'] == 'fn' and f['name'].startswith(X) and any(P.types[t]['k'] == 'ref' and P.types[t]['m'] for t in f['locals'][1:f['argc'] + 1]): op.append(f['name'])
        edges = []
        for f in fs:
            r = c.run(f, op, key='term', summ=summ); a = c.args(f)
            n = 0
            for nm, key, vals, p, _, _ in r.calls:
                if key in comp: edges.append((f, P.fns[key], a, vals, p, r.notes)); n += 1
            if not n: raise SpecGap('calls back from %s not found' % f['name'])
            if f['key'] in summ:
                for i in lists[f['key']]:
                    ck.same(f, 'gives the list of paths back as it was', r.out(i + 1), a[i], under=c.is_ok(r.ret), notes=r.notes)
        st = {}
        for n, (f, h, a, vals, p, notes) in enumerate(edges):
            for i in range(f['argc']):
                for j in range(h['argc']):
                    d = depth(vals[j], a[i], p)
                    st[n, i, j, 's'] = d
                    if i in lists[f['key']] and j in lists[h['key']]: st[n, i, j, 'c'] = s.chain(a, i, vals[j], p)
        best = None
        for cs in itertools.product(*[[None] + lists[f['key']] for f in fs]):
            if len({x is None for x in cs}) > 1: continue
            for ss in itertools.product(*[[i for i in range(f['argc'])] for f in fs]):
                ci = dict(zip((f['key'] for f in fs), cs)); si = dict(zip((f['key'] for f in fs), ss))
                bad = []; flat = {}
                for n, (f, h, a, vals, p, notes) in enumerate(edges):
                    k = st.get((n, ci[f['key']], ci[h['key']], 'c')) if ci[f['key']] is not None else 'same'
                    if k is None: bad.append(n); continue
                    if k == 'grows': continue
                    d = st[n, si[f['key']], si[h['key']], 's']
                    if d is None: bad.append(n)
                    elif d == 0: flat.setdefault(f['key'], set()).add(h['key'])
                loop = set().union(*sccs({k: flat.get(k, set()) for k in comp})) if flat else set()
                bad += [n for n, e in enumerate(edges) if e[0]['key'] in loop and e[1]['key'] in loop and n not in bad]
                if best is None or len(bad) < len(best): best = bad
            if not best: break
        for n, (f, h, a, vals, p, notes) in enumerate(edges):
            what = 'the call of %s lowers the measure' % h['name'].split('::')[-1]
            if n not in best: ck.ok(f, what); continue
            t = next((x for x in [tainted(p)] + [tainted(v) for v in vals] if x is not None), None) or next((x for x in notes if 'recursion' not in x), None)
            if t is not None: ck.unk(f, what, 'not interpreted: %s' % (t if isinstance(t, str) else tm.show(t, 0, 4)[:160]))
            else: ck.viol(f, what, 'called with data that need not be smaller and without a check that it was not gone through before, when [%s]' % tm.show(p, 0, 4)[:300])
    def chain(s, a, i, v, p):
        """what the call does to the list of paths: None (may lose some), 'same', or 'grows' by one registered and not yet in it"""
        c = s.c
        g = grown(v, a[i])
        if g is None: return None
        q = facts(p)
        for k in g:
            if not implied(q, b_not(member(c, a[i], k))): continue
            for y in a:
                if y.a[1].startswith(IDX) and implied(q, s.registered(y, k)): return 'grows'
            for z, idx, some in s.known_places(q):
                if idx in a and implied(q, b_and(some, eq(z, k))): return 'grows'
        return 'same'

# ---------------------------------------------------------------- loops
FIN = ('std::slice::', 'std::vec::', 'std::str::', 'std::option::', 'std::result::', 'std::array::', 'std::ops::Range', 'std::ops::RangeInclusive', 'std::iter::Once', 'std::iter::Empty', 'std::iter::Take', 'std::iter::RepeatN',
       'std::collections::', 'std::string::', 'indexmap::', 'roxmltree::', 'std::range::', 'regex::', 'std::char::')
ENDLESS = ('std::ops::RangeFrom', 'std::iter::Repeat', 'std::iter::RepeatWith', 'std::iter::Cycle')
ADAPT = ('Map', 'Filter', 'FilterMap', 'Enumerate', 'Rev', 'Skip', 'SkipWhile', 'TakeWhile', 'Peekable', 'Cloned', 'Copied', 'Inspect', 'StepBy', 'Fuse', 'MapWhile', 'Scan')
OPTS = ('map', 'and_then', 'filter', 'cloned', 'copied', 'inspect', 'as_deref', 'as_ref', 'zip', 'and', 'ok', 'transpose')

class Loops:
    def __init__(s, ck, g):
        s.ck = ck; s.P = ck.c.P; s.g = g; s.own = {}
    def finite(s, t):
        """True, False (endless) or None (not known)"""
        t = s.P.types[t]; n = t.get('n') or ''
        if t['k'] == 'ref': return s.finite(t['t'])
        if n in ENDLESS: return False
        if n == 'std::iter::Zip':
            v = [s.finite(x) for x in t['a'][:2]]
            return True if True in v else False if v == [False, False] else None
        if n == 'std::iter::Chain':
            v = [s.finite(x) for x in t['a'][:2]]
            return False if False in v else None if None in v else True
        if n.startswith('std::iter::') and n.split('::')[-1] in ADAPT: return s.finite(t['a'][0])
        if n in ('std::iter::Flatten', 'std::iter::FlatMap'): return s.finite(t['a'][0])
        if n.startswith(FIN): return True
        if n.startswith('svd'): return s.own_iter(t['id'])
        return None
    def own_iter(s, tid):
        if tid not in s.own:
            s.own[tid] = None
            P = s.P
            for f in P.fns.values():
                if f['ti'] == NEXT and f['cr'].startswith('svd') and P.types[P.strip_ref(f['locals'][1])]['n'] == P.types[tid]['n']:
                    s.own[tid] = True if s.consumes(f) or s.counts(f) else None
                    break
        return s.own[tid]
    def callee(s, b):
        t = b['t']
        if t[0] != 'call' or t[1][0] != 'K': return None
        ty = s.P.types[t[1][1]['ty']]
        return ty['c'] if ty['k'] == 'fndef' else None
    def nexts(s, f, blocks=None):
        """calls for the next element: (block, type of the sequence, place of the sequence, edges taken with an element)"""
        B = f['b']; r = []
        for i, b in enumerate(B):
            if b['cl'] or blocks is not None and i not in blocks: continue
            c = s.callee(b)
            if c is None or c['d'] not in TAKES or b['t'][4] < 0: continue
            d = b['t'][3]
            # the decision on the result
            j = b['t'][4]; edges = None; seen = set(); nothing = '0'
            while j not in seen:
                seen.add(j); t = B[j]['t']
                q = s.callee(B[j])
                if q is not None and q['d'] == 'std::ops::Try::branch' and t[2][0][0] in 'CM' and t[2][0][1] == d and t[4] >= 0:
                    d = t[3]; nothing = '1'; j = t[4]; continue
                for st in B[j]['s']:
                    if st[0] == '=' and st[2][0] == 'discr' and st[2][1] == d and t[0] == 'switch' and t[1][0] in 'CM' and t[1][1] == st[1]:
                        none = [x for v, x in t[3] if str(v) == nothing]
                        edges = [(j, x) for x in dict.fromkeys([x for v, x in t[3]] + [t[4]]) if x not in none]
                if edges is not None or t[0] not in ('goto', 'drop'): break
                j = t[1] if t[0] == 'goto' else t[2]
            r.append((i, c['a'][0], s.root(f, b['t'][2][0]), edges))
        return r
    def root(s, f, o):
        """local the sequence is kept in"""
        seen = set()
        if o[0] not in 'CM': return None
        l = o[1][0]
        while l not in seen and l > f['argc']:
            seen.add(l)
            defs = [st[2] for b in f['b'] if not b['cl'] for st in b['s'] if st[0] == '=' and st[1] == [l, []]]
            if len(defs) == 1 and defs[0][0] == 'ref': l = defs[0][2][0]
            elif not defs and s.handed(f, l) is not None: l = s.handed(f, l)
            elif len(defs) == 1 and defs[0][0] == 'use' and defs[0][1][0] in 'CM' and s.P.types[f['locals'][l]]['k'] == 'ref': l = defs[0][1][1][0]
            else: break
        return l
    def handed(s, f, l):
        """a sequence handed on as it is, by reference"""
        for b in f['b']:
            t = b['t']
            if b['cl'] or t[0] != 'call' or t[3] != [l, []]: continue
            c = s.callee(b)
            if c is not None and (c['d'] == 'std::iter::Iterator::by_ref' or c['d'] == 'std::iter::IntoIterator::into_iter' and s.P.types[c['a'][0]]['k'] == 'ref' and s.P.types[c['a'][0]]['m'] and
                                  s.P.types[f['locals'][l]]['k'] == 'ref') and t[2][0][0] in 'CM': return t[2][0][1][0]
        return None
    def assigned(s, f, blocks, l):
        for i in blocks:
            b = f['b'][i]
            for st in b['s']:
                if st[0] == '=' and st[1][0] == l: return True
            if b['t'][0] == 'call' and b['t'][3][0] == l: return True
        return False
    def graph(s, f, cut=()):
        from engine.mir import succs
        return {i: [x for x in succs(b['t']) if (i, x) not in cut and not f['b'][x]['cl']] for i, b in enumerate(f['b']) if not b['cl']}
    def check(s, f):
        """loops left over: (blocks, why)"""
        cut = set(); left = []
        g = s.graph(f)
        work = sccs(g); n = 0
        while work:
            comp = work.pop()
            more = set(); why = 'no sequence it runs over'
            for i, ty, l, edges in s.nexts(f, comp):
                if edges is None: why = 'what follows the next element is not followed'; continue
                if l is None or s.assigned(f, comp, l): why = 'the sequence is made anew'; continue
                fin = s.finite(ty)
                if fin is not True: why = 'the sequence %s is %s' % (s.P.types[ty]['s'][:120], 'endless' if fin is False else 'not known to end'); continue
                more |= {e for e in edges if e[1] in comp}
            if not more: left.append((comp, why)); continue
            cut |= more
            sub = s.graph(f, cut)
            work.extend(sccs({k: [x for x in sub[k] if x in comp] for k in comp}))
            n += 1
        return left, len(sccs(g))
    def consumes(s, f):
        """an own sequence that gives an element, or starts over, only after taking one of a finite sequence it holds"""
        ns = s.nexts(f); cut = set(); prog = set()
        me_ = f['key']
        for i, ty, l, edges in ns:
            if s.P.types[P_strip(s.P, ty)].get('n') == s.P.types[s.P.strip_ref(f['locals'][1])]['n']: continue
            if l != 1 or s.finite(ty) is not True: return False
            if edges: cut |= set(edges)
            prog.add(i)
        if not prog or s.check(f)[0]: return False
        g = s.graph(f, cut); seen = {0}; st = [0]
        while st:
            for x in g[st.pop()]:
                if x not in seen: seen.add(x); st.append(x)
        def none(o, deep=0):
            """an operand that is Some only if an element was taken"""
            if deep > 6: return False
            if o[0] == 'K': return False
            l = o[1][0]; ok = False
            for i, b in enumerate(f['b']):
                if b['cl']: continue
                for q in b['s']:
                    if q[0] == '=' and q[1] == [l, []]:
                        if q[2][0] == 'agg' and q[2][1][0] == 'adt' and q[2][1][2] == 0: ok = True
                        elif i not in seen: ok = True
                        elif q[2][0] == 'use' and none(q[2][1], deep + 1): ok = True
                        else: return False
                    elif q[0] == '=' and q[1][0] == l and i in seen: return False
                if b['t'][0] == 'call' and b['t'][3][0] == l:
                    c = s.callee(b)
                    if i not in seen or i in prog: ok = True
                    elif c is not None and c['d'] == 'std::ops::FromResidual::from_residual' and s.P.types[f['locals'][l]].get('n') == 'std::option::Option': ok = True
                    elif c is not None and c['n'].startswith('std::option::Option') and c['n'].split('::')[-1] in OPTS and none(b['t'][2][0], deep + 1): ok = True
                    else: return False
            return ok
        for i, b in enumerate(f['b']):
            if b['cl'] or i not in seen: continue
            c = s.callee(b)
            if c is not None and c['k'] == me_: return False
        return none(['C', [0, []]])
    def counts(s, f):
        """an own sequence that counts up by one to a limit it keeps"""
        c = s.ck.c
        try: r = c.run(f, ['none'], key='term')
        except Unknown: return False
        x, = c.args(f)
        if any('recursion' in n for n in r.notes) or s.check(f)[0]: return False
        ty = s.P.types[s.P.strip_ref(f['locals'][1])]; out = r.out(1); n = len(ty['v'][0]['f'])
        ints = [i for i in range(n) if s.P.types[ty['v'][0]['f'][i][1]]['k'] == 'uint']
        some = c.is_some(r.ret)
        for i in ints:
            for k in ints:
                if i == k: continue
                a, b = fld(x, 0, i), fld(x, 0, k)
                if implied(some, b_and(b_and(eq(fld(out, 0, i), add(a, lint(1))), eq(fld(out, 0, k), b)), b_not(eq(a, b)))): return True
        return False

def P_strip(P, t): return P.strip_ref(t)

def check(ck):
    c = ck.c; P = c.P
    ck.rule('recursion rule: every cycle of calls lowers a measure: the size of the data handed on, or, where that comes from the index, the number of registered elements not yet gone through')
    ck.rule('loop rule: every cycle of a function body takes the next element of a finite sequence, and nothing is collected from an endless one')
    def anchors():
        c.fn('svd_parser::expand'); c.fn('svd_parser::expand_properties'); c.fn(X + "Index::<'a>::create")
        for n in ('peripheral', 'cluster', 'register', 'field', 'enumerated_values'): c.fn(X + 'derive_' + n)
    ck.guarded('entry points', anchors, anchor='svd_parser::expand')
    t = Term(ck)
    t.prove_lemma()
    l = Loops(ck, t.g)
    for comp in t.comps:
        own = [P.fns[k] for k in comp if t.project(k)]
        if not own: continue
        name = sorted(f['name'] for f in own)[0]
        if all(f['ti'] == NEXT for f in own):
            for f in own:
                if l.consumes(f) or l.counts(f): ck.ok(f, 'starts over only after an element was taken')
                else: ck.unk(f, 'starts over only after an element was taken', 'form not known')
            continue
        ck.guarded('recursion', lambda: t.component(comp), anchor=name)
    for k in sorted(t.g):
        f = P.fns[k]
        if not f['cr'].startswith('svd'): continue
        left, n = l.check(f)
        c.analysed[f['name']] = sum(1 for b in f['b'] if not b['cl'])
        if n and not left: ck.ok(f, 'its loops end')
        for comp, why in left:
            exits = any(x not in comp for i in comp for x in l.graph(f)[i])
            if not exits or 'endless' in why and not exits: ck.viol(f, 'its loops end', 'a loop without a way out at %s' % f['b'][min(comp)]['sp'])
            else: ck.unk(f, 'its loops end', why)
        for i, b in enumerate(f['b']):
            if b['cl']: continue
            q = l.callee(b)
            if q is None or not q['d'].startswith(('std::iter::Iterator::', 'std::iter::Extend::', 'std::iter::FromIterator::')): continue
            w = q['d'].split('::')[-1]
            if w not in ('collect', 'count', 'last', 'fold', 'for_each', 'sum', 'product', 'max', 'min', 'extend', 'from_iter', 'partition', 'unzip', 'try_for_each'): continue
            tys = q['a'][:1] if 'Iterator::' in q['d'] and w != 'from_iter' else q['a'][1:]
            v = [l.finite(y) for y in tys if P.types[y]['k'] == 'adt']
            if False in v and w != 'try_for_each': ck.viol(f, 'collects something finite', '%s of an endless sequence at %s' % (w, b['sp']))
            elif v and all(v): ck.ok(f, 'collects something finite')
