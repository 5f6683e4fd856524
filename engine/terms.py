"""Hash-consed value terms and guarded (decision-diagram) values.

A value is either a *leaf* term or a `case` node: a multi-way decision on an
*atom* (a term with finitely many distinguished values).  Atoms are ordered by
creation id along every path of a diagram, as in an ordered decision diagram,
so that equal guarded values are (mostly) the same object; `equiv` decides the
rest by walking two diagrams together.
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'a', 'id', '_fv', '_da', '_mr')
    def __init__(s, op, a, i):
        s.op = op; s.a = a; s.id = i; s._fv = None; s._da = None; s._mr = None
    def __repr__(s):
        return show(s)

_tab = {}
def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(op, a, len(_tab))
        _tab[k] = t
    return t

BOT = mk('bot')
UNIT = mk('lit', 'u', 0)
TRUE = mk('lit', 'b', 1)
FALSE = mk('lit', 'b', 0)
def lint(n): return mk('lit', 'i', n)
def lstr(s): return mk('lit', 's', s)
def lchar(c): return mk('lit', 'c', c)
def lbool(b): return TRUE if b else FALSE
def sym(n): return mk('sym', n)
def is_lit(t): return t.op == 'lit'

DOM = {}          # atom -> tuple of possible values (None entry: open domain)

# ---------------------------------------------------------------- case nodes
def rawcase(atom, items, default):
    return mk('case', atom, items, default)

def branches(t, atom):
    """(dict val->term, default) view of t w.r.t. atom (t may not test it)."""
    if t.op == 'case' and t.a[0] is atom:
        return dict(t.a[1]), t.a[2]
    return {}, t

def pick(t, atom, v):
    if t.op == 'case' and t.a[0] is atom:
        for k, x in t.a[1]:
            if k == v: return x
        return t.a[2] if t.a[2] is not None else BOT
    return t

def top(ts):
    best = None
    for t in ts:
        if t.op == 'case':
            a = t.a[0]
            if best is None or a.id < best.id: best = a
    return best

def split_vals(ts, atom):
    vs = []
    seen = set()
    dflt = atom not in DOM
    for t in ts:
        if t.op == 'case' and t.a[0] is atom:
            for k, _ in t.a[1]:
                if k not in seen:
                    seen.add(k); vs.append(k)
    if atom in DOM:
        return list(DOM[atom]), False
    return vs, dflt

class _Default: pass
DEFAULT = _Default()

_case_memo = {}
def mk_case(atom, d, default=None):
    """General constructor: atom test over arbitrary guarded terms."""
    if atom.op == 'lit':
        v = atom.a[1]
        if v in d: return d[v]
        return default if default is not None else BOT
    if atom.op == 'case':   # scrutinee itself guarded
        return lift1(lambda l: mk_case(l, d, default), atom)
    if default is not None and 0 in d and atom.op == 'call' and atom.a[0] == 'len' and atom.a[1].op == 'call' and atom.a[1].a[0] == 'split':
        d = {k: v for k, v in d.items() if k != 0}   # a text has at least one part
        if not d: return default
    items = tuple(sorted(d.items(), key=lambda kv: (str(type(kv[0])), kv[0])))
    if atom in DOM and default is not None:
        full = dict(items)
        for v in DOM[atom]:
            if v not in full: full[v] = default
        items = tuple(sorted(full.items(), key=lambda kv: (str(type(kv[0])), kv[0])))
        default = None
    key = (atom, items, default)
    r = _case_memo.get(key)
    if r is None:
        r = _mk_case(atom, items, default)
        _case_memo[key] = r
    return r

def _mk_case(atom, items, default):
    if atom in DOM:
        dom = set(DOM[atom])
        items = tuple((k, v) for k, v in items if k in dom)
    its = [(k, t) for k, t in items if t is not BOT]
    df = default if default is not BOT else None
    alls = [t for _, t in its] + ([df] if df is not None else [])
    if not alls: return BOT
    if df is not None and default is not None:
        its = [(k, t) for k, t in its if t is not df]
    if all(x is alls[0] for x in alls): return alls[0]
    t0 = top(alls)
    if t0 is not None and t0.id <= atom.id:
        if t0 is atom:
            its = [(k, pick(t, atom, k)) for k, t in its]
            if df is not None:
                b, dd = branches(df, atom)
                have = {k for k, _ in its}
                have |= {k for k, t in items if t is BOT}
                for k, x in b.items():
                    if k not in have: its.append((k, x))
                df = dd
            d = {k: x for k, x in its}
            return mk_case_sorted(atom, d, df)
        vs, dfl = split_vals(alls, t0)
        nb = {}
        for v in vs:
            nb[v] = mk_case(atom, {k: pick(t, t0, v) for k, t in its}, pick(df, t0, v) if df is not None else None)
        nd = None
        if dfl:
            f = lambda t: branches(t, t0)[1] or BOT
            nd = mk_case(atom, {k: f(t) for k, t in its}, f(df) if df is not None else None)
        return mk_case(t0, nb, nd)
    return mk_case_sorted(atom, dict(its), df)

def da(t):
    """ids of the decision atoms occurring anywhere inside t"""
    if t._da is not None: return t._da
    stack = [t]
    while stack:
        x = stack[-1]
        if x._da is not None: stack.pop(); continue
        kids = children(x)
        todo = [c for c in kids if c._da is None]
        if todo: stack.extend(todo); continue
        s = set()
        for c in kids:
            if c._da: s |= c._da
        if x.op == 'case': s.add(x.a[0].id)
        x._da = frozenset(s) if s else EMPTY
        stack.pop()
    return t._da

_men = {}
def mentions(t, x):
    """does x occur in t as a value (not just below a projection of itself)?"""
    if t is x: return True
    if t.id < x.id: return False
    k = (t, x)
    r = _men.get(k)
    if r is not None: return r
    r = False
    for c in children(t):
        if mentions(c, x): r = True; break
    _men[k] = r
    return r

def mk_case_sorted(atom, d, df):
    d = {k: t for k, t in d.items() if t is not BOT}
    if df is BOT: df = None
    X0 = None
    if atom.op == 'disc' and atom.a[0] in ENUMTY:
        X0 = atom.a[0]; nul = NULLARY.get(ENUMTY[X0], ())
    for k, t in d.items():
        if atom.id in da(t) or (X0 is not None and k in nul and mentions(t, X0)): d[k] = assume(t, atom, k)
    if any(t.op == 'case' and t.a[0].id <= atom.id for t in d.values()):
        return mk_case(atom, d, df)
    d = {k: t for k, t in d.items() if t is not BOT}
    alls = list(d.values()) + ([df] if df is not None else [])
    if not alls: return BOT
    if all(x is alls[0] for x in alls): return alls[0]
    if X0 is not None and df is None and atom in DOM and len(d) == len(DOM[atom]) \
            and all((t is X0 and k not in nul) or (t.op == 'adt' and t.a == (ENUMTY[X0], k)) for k, t in d.items()): return X0
    if df is not None: d = {k: t for k, t in d.items() if t is not df}
    a0 = next((x for x in alls if x.op == 'adt'), alls[0])
    if a0.op == 'adt' and a0.a[1] == 0 and len(a0.a) > 2 and a0.a[0] not in ENUMS and not a0.a[0].startswith('closure:') \
            and any(x.op != 'adt' for x in alls) and all(x.op in EXPANDABLE or (x.op == 'adt' and x.a[:2] == a0.a[:2]) for x in alls):
        nf = len(a0.a) - 2
        ex = lambda x: x if x.op == 'adt' else mk('adt', a0.a[0], 0, *[fld(x, 0, i) for i in range(nf)])
        d = {k: ex(x) for k, x in d.items()}
        if df is not None: df = ex(df)
        alls = list(d.values()) + ([df] if df is not None else [])
        a0 = alls[0]
    if a0.op == 'adt' and all(x.op == 'adt' and x.a[0] == a0.a[0] and x.a[1] == a0.a[1] and len(x.a) == len(a0.a) for x in alls):
        fs = []
        for i in range(2, len(a0.a)):
            fs.append(mk_case(atom, {k: t.a[i] for k, t in d.items()}, df.a[i] if df is not None else None))
        return adt(a0.a[0], a0.a[1], *fs)
    if any(x.op == 'list' for x in alls) and all(x.op != 'case' for x in alls):
        return merge_lists(atom, d, df)
    items = tuple(sorted(d.items(), key=lambda kv: (str(type(kv[0])), kv[0])))
    return rawcase(atom, items, df)

def lift1(f, t, memo=None):
    if t.op != 'case':
        return f(t)
    if memo is None: memo = {}
    r = memo.get(t)
    if r is None:
        d = {k: lift1(f, x, memo) for k, x in t.a[1]}
        df = lift1(f, t.a[2], memo) if t.a[2] is not None else None
        r = mk_case(t.a[0], d, df)
        memo[t] = r
    return r

def lift(f, ts, memo=None):
    ts = tuple(ts)
    a = top(ts)
    if a is None:
        if any(t is BOT for t in ts): return BOT
        return f(*ts)
    if memo is None: memo = {}
    r = memo.get(ts)
    if r is None:
        vs, dfl = split_vals(ts, a)
        d = {v: lift(f, [pick(t, a, v) for t in ts], memo) for v in vs}
        df = lift(f, [branches(t, a)[1] or BOT for t in ts], memo) if dfl else None
        r = mk_case(a, d, df)
        memo[ts] = r
    return r

# ---------------------------------------------------------------- booleans
def atom_bool(t):
    """boolean-valued opaque term as a guarded value"""
    if t.op in ('lit', 'case', 'bot'): return t
    if t not in DOM: DOM[t] = (0, 1)
    return rawcase(t, ((0, FALSE), (1, TRUE)), None)

_ite_memo = {}
def ite(g, a, b):
    if g is TRUE: return a
    if g is FALSE: return b
    if g is BOT: return BOT
    if a is b: return a
    k = (g, a, b)
    r = _ite_memo.get(k)
    if r is not None: return r
    if g.op != 'case':
        g = atom_bool(g)
    at = g.a[0]
    m = top([a, b])
    if m is not None and m.id < at.id:
        vs, dfl = split_vals([a, b], m)
        d = {v: ite(g, pick(a, m, v), pick(b, m, v)) for v in vs}
        df = ite(g, branches(a, m)[1] or BOT, branches(b, m)[1] or BOT) if dfl else None
        r = mk_case(m, d, df)
    else:
        d = {}
        df = None
        keys = [k_ for k_, _ in g.a[1]]
        for t in (a, b):
            if t.op == 'case' and t.a[0] is at:
                keys += [k_ for k_, _ in t.a[1] if k_ not in keys]
        for v in keys:
            d[v] = ite(pick(g, at, v), pick(a, at, v), pick(b, at, v))
        if g.a[2] is not None:
            df = ite(g.a[2], branches(a, at)[1] or BOT, branches(b, at)[1] or BOT)
        r = mk_case(at, d, df)
    _ite_memo[k] = r
    return r

def b_not(a): return ite(a, FALSE, TRUE)
def b_and(a, b): return ite(a, b, FALSE)
def b_or(a, b): return ite(a, TRUE, b)

def guard_eq(atom, v):
    """guard: atom has value v"""
    if atom.op == 'lit': return lbool(atom.a[1] == v)
    if atom.op == 'case': return lift1(lambda l: guard_eq(l, v), atom)
    if v == 0 and atom.op == 'call' and atom.a[0] == 'strlen': return guard_eq(atom.a[1], '')
    return mk_case(atom, {v: TRUE}, FALSE)

def units(g):
    """atom values implied by guard g (single-path prefix literals)"""
    out = {}
    def feas(t):
        return t is not FALSE and t is not BOT
    memo = {}
    def go(t):
        # returns dict of implied literals below t (None = infeasible)
        if t is FALSE or t is BOT: return None
        if t.op != 'case': return {}
        if t in memo: return memo[t]
        opts = []
        for k, x in t.a[1]:
            r = go(x)
            if r is not None:
                r = dict(r); r[t.a[0]] = k; opts.append(r)
        if t.a[2] is not None:
            r = go(t.a[2])
            if r is not None:
                opts.append(dict(r))
        if not opts: res = None
        else:
            res = opts[0]
            for o in opts[1:]:
                res = {k: v for k, v in res.items() if o.get(k, DEFAULT) == v}
        memo[t] = res
        return res
    return go(g) or {}

# ---------------------------------------------------------------- free binders
EMPTY = frozenset()
def fv(t):
    if t._fv is not None: return t._fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None: stack.pop(); continue
        kids = [c for c in children(x)]
        todo = [c for c in kids if c._fv is None]
        if todo:
            stack.extend(todo); continue
        s = EMPTY
        for c in kids:
            if c._fv: s = s | c._fv
        if x.op in ('elem', 'ix'):
            s = s | {(x.a[0].id, x.a[1])}
        elif x.op in BINDERS:
            s0 = x.a[0]._fv
            s = (s - {(x.a[0].id, x.a[1])}) | s0
        x._fv = s
        stack.pop()
    return t._fv

def has_ref(t):
    """t mentions a reference to memory"""
    if t._mr is not None: return t._mr
    stack = [t]
    while stack:
        x = stack[-1]
        if x._mr is not None: stack.pop(); continue
        if x.op == 'mref': x._mr = True; stack.pop(); continue
        kids = children(x)
        todo = [c for c in kids if c._mr is None]
        if todo: stack.extend(todo); continue
        x._mr = any(c._mr for c in kids)
        stack.pop()
    return t._mr

BINDERS = ('for', 'first', 'fold', 'loopx')

def children(x):
    out = []
    if x.op == 'case':
        out.append(x.a[0])
        for _, c in x.a[1]: out.append(c)
        if x.a[2] is not None: out.append(x.a[2])
    else:
        for c in x.a:
            if isinstance(c, T): out.append(c)
            elif isinstance(c, tuple):
                _tc(c, out)
    return out
def _tc(c, out):
    for y in c:
        if isinstance(y, T): out.append(y)
        elif isinstance(y, tuple): _tc(y, out)

def rebuild(x, f):
    """apply f to the children and re-normalise"""
    if x.op == 'case':
        at = f(x.a[0])
        d = {k: f(c) for k, c in x.a[1]}
        df = f(x.a[2]) if x.a[2] is not None else None
        if at is x.a[0]:
            return mk_case(at, d, df)
        if at.op == 'case' and at.a[0].op in ('bot',): return BOT
        # boolean atoms may have become guarded booleans
        if x.a[0] in DOM:
            for l in leafset(at):
                if l.op in ('call', 'disc', 'fld', 'index', 'elem') and l not in DOM: DOM[l] = DOM[x.a[0]]
        return lift1(lambda l: mk_case(l, d, df) if l.op != 'lit' else (d.get(l.a[1], df if df is not None else BOT)), at)
    na = []
    ch = False
    for c in x.a:
        if isinstance(c, T):
            n = f(c)
        elif isinstance(c, tuple):
            n = _rt(c, f)
        else: n = c
        if n is not c and n != c: ch = True
        na.append(n)
    if not ch: return x
    return norm(x.op, na)

def leafset(t):
    if t.op != 'case': return (t,)
    seen = set(); out = []; st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op != 'case': out.append(x); continue
        st.extend(c for _, c in x.a[1])
        if x.a[2] is not None: st.append(x.a[2])
    return out
def _rt(c, f):
    return tuple(f(y) if isinstance(y, T) else (_rt(y, f) if isinstance(y, tuple) else y) for y in c)

NORM = {}
NOLIFT = {'lambda', 'fupd', 'loopout', 'loopexit', 'partial', 'agg', 'concat', 'sort', 'contains'}
def norm(op, a):
    h = NORM.get(op)
    if h: return h(*a)
    if op == 'call':
        h = NORM.get('call:' + a[0])
        if h: return h(*a[1:])
        if a[0] not in NOLIFT and any(isinstance(x, T) and (x.op == 'case' or x is BOT) for x in a[1:]) and all(isinstance(x, T) for x in a[1:]):
            return lift(lambda *ys: mk('call', a[0], *ys), a[1:])
    return mk(op, *a)

def subst(t, m, memo=None):
    """replace terms (keys of m) by terms, respecting binders"""
    if memo is None: memo = {}
    keyfv = frozenset().union(*[fv(k) for k in m])
    def go(x):
        r = m.get(x)
        if r is not None: return r
        if keyfv and not (fv(x) & keyfv): return x
        r = memo.get(x)
        if r is None:
            if x.op in BINDERS and (x.a[0].id, x.a[1]) in keyfv:
                # shadowed in the body; only the list may mention it
                r = norm(x.op, [go(x.a[0])] + list(x.a[1:]))
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)

_as_memo = {}
def assume(t, atom, v):
    """deep cofactor: t under the assumption atom == v"""
    key = (atom, v)
    memo = _as_memo.setdefault(key, {})
    afv = fv(atom)
    X0 = None
    if atom.op == 'disc':
        X0 = atom.a[0]; ety = ENUMTY.get(X0)
        if ety is None or v not in NULLARY.get(ety, ()): X0 = None
    def go(x):
        if x is X0: return mk('adt', ety, v)
        r = memo.get(x)
        if r is not None: return r
        if x is atom:
            r = val_lit(atom, v)
            if r is None: r = x
        elif x.op == 'case':
            a = x.a[0]
            if a is atom:
                r = go(pick(x, atom, v))
            else:
                r = rebuild(x, go)
        elif x.op in BINDERS and afv & {(x.a[0].id, x.a[1])}:
            r = x
        elif not children(x): r = x
        else: r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)

def val_lit(atom, v):
    if atom in DOM and set(DOM[atom]) <= {0, 1} and atom.op != 'disc':
        return lbool(v)
    if isinstance(v, str): return lstr(v)
    if isinstance(v, int): return lint(v)
    return None

def assume_all(t, d):
    for a, v in d.items():
        t = assume(t, a, v)
    return t

def assume_guard(t, g):
    return restrict(assume_all(t, units(g)), g)

_rs_memo = {}
def restrict(t, c):
    """t simplified for the assignments that satisfy c (any value elsewhere)"""
    if c is TRUE or c.op != 'case': return t
    k = (t, c)
    r = _rs_memo.get(k)
    if r is not None: return r
    if t.op == 'case':
        a, b = t.a[0], c.a[0]
        if b.id < a.id:
            # a condition on something t does not test first
            g = FALSE
            for _, x in c.a[1]: g = b_or(g, FALSE if x is BOT else x)
            if c.a[2] is not None: g = b_or(g, c.a[2])
            r = restrict(t, g) if g is not c else t
        else:
            d = {}; df = None
            vs, dfl = split_vals([t, c], a)
            for v in vs:
                cv = pick(c, a, v)
                if cv is FALSE or cv is BOT: continue
                d[v] = restrict(pick(t, a, v), cv)
            if dfl:
                cd = branches(c, a)[1]
                if cd is not None and cd is not FALSE and cd is not BOT:
                    x = branches(t, a)[1]
                    if x is not None: df = restrict(x, cd)
            l = list(d.values()) + ([df] if df is not None else [])
            # where c excludes a value, t may have any: the one that makes the test unnecessary
            if l and all(x is l[0] for x in l): r = l[0]
            else:
                for v in vs:
                    if v not in d: d[v] = pick(t, a, v)
                if dfl and df is None: df = branches(t, a)[1]
                r = mk_case(a, d, df)
    elif t.op == 'list': r = mk_list([_rseg(x, c) for x in t.a])
    elif t.op == 'adt' and len(t.a) > 2: r = rebuild(t, lambda x: restrict(x, c))
    else: r = t
    _rs_memo[k] = r
    return r
def _rseg(x, c):
    if x.op == 'item': return item(restrict(x.a[0], c))
    if x.op == 'if': return seg_if(restrict(x.a[0], c), [_rseg(y, c) for y in x.a[1:]])
    if x.op == 'for' and (x.a[0].id, x.a[1]) not in fv(c): return seg_for(x.a[0], x.a[1], [_rseg(y, c) for y in x.a[2:]])
    return x

# ---------------------------------------------------------------- data
ENUMS = {'Option', 'Result', '?'}
EXPANDABLE = {'sym', 'fld', 'call', 'elem'}
def adt(ty, var, *fs):
    if any(f is BOT for f in fs): return BOT
    if fs and var == 0 and ty not in ENUMS and fs[0].op == 'fld' and fs[0].a[2] == 0 and fs[0].a[1] == 0 and (len(fs) > 1 or ty != '()'):
        x = fs[0].a[0]
        if len(fs) > 1 and all(f.op == 'fld' and f.a[0] is x and f.a[1] == 0 and f.a[2] == i for i, f in enumerate(fs)): return x
    if fs and fs[0].op == 'fld' and fs[0].a[1] == var and fs[0].a[2] == 0 and ENUMTY.get(fs[0].a[0]) == ty:
        x = fs[0].a[0]
        if all(f.op == 'fld' and f.a[0] is x and f.a[1] == var and f.a[2] == i for i, f in enumerate(fs)): return x
    return mk('adt', ty, var, *fs)
def fupd(v, var, i, nv):
    """functional field update of an opaque value (canonical order)"""
    if (var, i) == (1, 0) and ENUMTY.get(v) == 'Option': return SOME(nv)
    ups = {}
    while v.op == 'call' and v.a[0] == 'fupd':
        ups.setdefault((v.a[3].a[1], v.a[2].a[1]), v.a[4]); v = v.a[1]
    ups[(var, i)] = nv
    for (vr, j), x in sorted(ups.items()):
        if x is fld(v, vr, j): continue
        v = mk('call', 'fupd', v, lint(j), lint(vr), x)
    return v
def tup(*fs): return adt('()', 0, *fs)
def NONE(): return mk('adt', 'Option', 0)
def SOME(x): return BOT if x is BOT else adt('Option', 1, x)
def OK(x): return BOT if x is BOT else adt('Result', 0, x)
def ERR(x): return BOT if x is BOT else adt('Result', 1, x)

def fld(t, var, i):
    if t.op == 'case': return lift1(lambda l: fld(l, var, i), t)
    if t is BOT: return BOT
    if t.op == 'adt':
        if t.a[1] != var: return BOT
        return t.a[2 + i] if 2 + i < len(t.a) else BOT
    if t.op == 'call' and t.a[0] == 'fupd':
        if t.a[2].a[1] == i and t.a[3].a[1] == var: return t.a[4]
        return fld(t.a[1], var, i)
    return mk('fld', t, var, i)
NORM['fld'] = fld
NORM['adt'] = lambda ty, var, *fs: adt(ty, var, *fs)

ENUMTY = {}        # opaque term -> enum type name
NULLARY = {'Option': {0}}   # enum type -> variants without fields
def occurs(x, t):
    st = [t]; seen = set()
    while st:
        y = st.pop()
        if y is x: return True
        if y in seen: continue
        seen.add(y); st.extend(children(y))
    return False
def disc(t, dom=None, ty=None):
    if t.op == 'case': return lift1(lambda l: disc(l, dom, ty), t)
    if t is BOT: return BOT
    if t.op == 'adt': return lint(t.a[1])
    if t.op == 'first' and t.a[2] is TRUE and t.a[0].op not in ('list', 'case'):
        L = t.a[0]
        while L.op == 'call' and L.a[0] in ('sort', 'usort', 'rev'): L = L.a[1]
        if L.op in ('list', 'case'):   # an ordering of a list has an element when the list has one
            return disc(norm_first(L, t.a[1], TRUE), dom, ty)
        return mk_case(mk('call', 'len', L), {0: lint(0)}, lint(1))
    if t.op == 'first' and t.a[0].op == 'call' and t.a[0].a[0] in ('sort', 'usort', 'rev'):
        L, d, g = t.a    # whether some element meets a condition does not depend on the order
        M = L
        while M.op == 'call' and M.a[0] in ('sort', 'usort', 'rev'): M = M.a[1]
        g2 = subst(g, {mk('elem', L, d): elem(M, d)})
        if M.op not in ('list', 'case') and not occurs(mk('ix', L, d), g): return disc(norm_first(M, d, g2), dom, ty)
    if ty is not None and ty != 'Result' and t not in ENUMTY: ENUMTY[t] = ty   # Result: payload types differ between uses
    d = mk('disc', t)
    if dom is not None and d not in DOM:
        DOM[d] = tuple(dom)
    if d in DOM and len(DOM[d]) == 1: return lint(DOM[d][0])
    return d
NORM['disc'] = disc

def is_var(t, v, dom=(0, 1)):
    return lift1(lambda l: guard_eq(l, v), disc(t, dom))

# ---------------------------------------------------------------- arithmetic
def poly(t):
    if t.op == 'lit' and t.a[0] == 'i': return t.a[1], {}
    if t.op == 'add': return t.a[0], dict((x, c) for c, x in t.a[1])
    return 0, {t: 1}
def mkpoly(c, d):
    d = {x: k for x, k in d.items() if k != 0}
    if not d: return lint(c)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if k == 1: return x
    return mk('add', c, tuple((k, x) for x, k in sorted(d.items(), key=lambda z: z[0].id)))
def norm_add(c, items):
    r = lint(c)
    for k, x in items:
        r = add(r, scale(x, k))
    return r
NORM['add'] = norm_add
def add(a, b):
    return lift(_add, (a, b))
def _add(a, b):
    ca, da = poly(a); cb, db = poly(b)
    d = dict(da)
    for x, k in db.items(): d[x] = d.get(x, 0) + k
    return mkpoly(ca + cb, d)
def scale(a, k):
    def f(l):
        c, d = poly(l)
        return mkpoly(c * k, {x: v * k for x, v in d.items()})
    return lift1(f, a)
def sub(a, b): return add(a, scale(b, -1))
def mul(a, b):
    def f(x, y):
        if x.op == 'lit': return scale(y, x.a[1])
        if y.op == 'lit': return scale(x, y.a[1])
        if x.id > y.id: x, y = y, x
        return mk('call', 'mul', x, y)
    return lift(f, (a, b))
NORM['call:mul'] = mul

def eq(a, b):
    return lift(_eq, (a, b))
def isc(t, n): return t.op == 'call' and t.a[0] == n
def _eq(a, b):
    if a is b: return TRUE
    for x, y in ((a, b), (b, a)):
        if y.op == 'lit' and y.a == ('i', 0):
            # no bit at or above w: below 2^w
            if isc(x, 'shr'): return negative(sub(x.a[1], mk('call', 'pow', lint(2), x.a[2])))
            # no bit of v outside m: v is covered by m
            if isc(x, 'bitand'):
                for v, m in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                    if isc(m, 'bitnot'):
                        q = (v, m.a[1]) if v.id < m.a[1].id else (m.a[1], v)
                        return _eq(mk('call', 'bitand', *q), v)
        if isc(x, 'bitor') and y in x.a[1:]:
            v = x.a[1] if x.a[2] is y else x.a[2]
            q = (v, y) if v.id < y.id else (y, v)
            return _eq(mk('call', 'bitand', *q), v)
    if a.op == 'lit' and b.op == 'lit':
        return lbool(a.a == b.a)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1] or len(a.a) != len(b.a): return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]): r = b_and(r, eq(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op != 'adt' and all(f.op == 'lit' or True for f in x.a[2:]):
            d = mk('disc', y)
            if d in DOM or x.a[0] in ADT_DOM:
                if d not in DOM: DOM[d] = ADT_DOM[x.a[0]]
                r = guard_eq(disc(y), x.a[1])
                for i, f in enumerate(x.a[2:]): r = b_and(r, eq(f, fld(y, x.a[1], i)))
                return r
    pa, pb = poly(a), poly(b)
    if pa[1] or pb[1]:
        d = dict(pa[1])
        for x, k in pb[1].items(): d[x] = d.get(x, 0) - k
        d = {x: k for x, k in d.items() if k}
        c = pa[0] - pb[0]
        if (a.op in ('add',) or b.op in ('add',)) or not d:
            if not d: return lbool(c == 0)
            if len(d) == 1:
                (x, k), = d.items()
                if k in (1, -1):
                    n = -c // k
                    return guard_eq(x, n)
            xs = sorted(d, key=lambda z: z.id)
            if d[xs[0]] < 0: d = {x: -k for x, k in d.items()}; c = -c
            return atom_bool(mk('call', 'zero', mkpoly(c, d)))
    for x, y in ((a, b), (b, a)):
        if y.op == 'lit' and y.a[0] in 'isc':
            return guard_eq(x, y.a[1])
        if y.op == 'lit' and y.a[0] == 'u':
            return TRUE
    if a.id > b.id: a, b = b, a
    return atom_bool(mk('call', 'eq', a, b))
NORM['call:eq'] = eq
def _nz(p):
    return eq(p, lint(0))
NORM['call:zero'] = _nz
ADT_DOM = {}

UNSIGNED = set()   # terms known non-negative
def lt(a, b, unsigned=True):
    def f(x, y):
        if x.op == 'lit' and y.op == 'lit' and x.a[0] == y.a[0]: return lbool(x.a[1] < y.a[1])
        if x is y: return FALSE
        if x.op == 'adt' or y.op == 'adt': return atom_bool(mk('call', 'ltx', x, y))
        if unsigned:
            if y.op == 'lit' and y.a == ('i', 0): return FALSE
            if y.op == 'lit' and y.a == ('i', 1) and x.op != 'add': return guard_eq(x, 0)
            if x.op == 'lit' and x.a == ('i', 0) and y.op != 'add': return b_not(guard_eq(y, 0))
        return negative(sub(x, y))
    return lift(f, (a, b))
def negative(p):
    def f(l):
        if l.op == 'lit': return lbool(l.a[1] < 0)
        c, d = poly(l)
        for x, k in d.items():
            if k in (1, -1) and isc(x, 'clz64'):
                # leading zeros tell between which powers of two the number lies
                r = mkpoly(c, {z: n for z, n in d.items() if z is not x})
                e = add(lint(64), r) if k == 1 else sub(lint(63), r)
                ce, de = poly(e)
                if ce >= 0 and all(n > 0 for n in de.values()):
                    below = negative(sub(x.a[1], mk('call', 'pow', lint(2), e)))
                    return b_not(below) if k == 1 else below
        xs = sorted(d, key=lambda z: z.id)
        if d[xs[0]] < 0:
            return b_not(negative(mkpoly(-c - 1, {x: -k for x, k in d.items()})))
        if len(xs) == 1 and d[xs[0]] == 1:
            if c == -1 : return guard_eq(xs[0], 0)
            if c == 0 and xs[0].op in ('ix', 'call', 'fld', 'sym', 'elem'): return FALSE
        return atom_bool(mk('call', 'neg', l))
    return lift1(f, p)
NORM['call:neg'] = negative

# ---------------------------------------------------------------- strings
def cat(*ps):
    return lift(_cat, ps)
def _cat(*ps):
    out = []
    for p in ps:
        if p.op == 'call' and p.a[0] == 'cat': qs = p.a[1:]
        else: qs = (p,)
        for q in qs:
            if q.op == 'lit' and q.a[0] == 'c': q = lstr(q.a[1])
            if q.op == 'lit' and q.a[1] == '': continue
            if out and out[-1].op == 'lit' and q.op == 'lit':
                out[-1] = lstr(out[-1].a[1] + q.a[1])
            else: out.append(q)
    if not out: return lstr('')
    if len(out) == 1: return out[0]
    return mk('call', 'cat', *out)
NORM['call:cat'] = cat

# ---------------------------------------------------------------- lists
def mk_list(segs):
    out = []
    for s in segs:
        if s is BOT: continue
        if not isinstance(s, T): raise Exception('bad segment %r' % (segs,))
        if s.op == 'list':
            out.extend(s.a); continue
        if s.op == 'spl':
            x = s.a[0]
            if x.op == 'list': out.extend(x.a); continue
        if s.op == 'if':
            if s.a[0] is FALSE or s.a[0] is BOT: continue
            if s.a[0] is TRUE: out.extend(s.a[1:]); continue
            if len(s.a) == 1: continue
        if s.op == 'for' and len(s.a) == 2: continue
        if s.op == 'if' and out and out[-1].op == 'if' and out[-1].a[1:] == s.a[1:] and b_and(out[-1].a[0], s.a[0]) is FALSE:
            g = b_or(out.pop().a[0], s.a[0])
            if g is TRUE: out.extend(s.a[1:])
            else: out.append(mk('if', g, *s.a[1:]))
            continue
        out.append(s)
    if len(out) == 1 and out[0].op == 'spl': return out[0].a[0]
    return mk('list', *out)
EMPTYL = mk('list')
def segs_of(t):
    if t.op == 'list': return list(t.a)
    if t.op == 'case':
        return guarded_segs(t)
    return [mk('spl', t)]
def guarded_segs(t):
    r = lift1(lambda l: l if l.op == 'list' else mk('list', mk('spl', l)), t)
    if r.op == 'list': return list(r.a)
    # still guarded (different order): enumerate leaves
    out = []
    for leaf, g in leaves(r):
        out.append(seg_if(g, leaf.a if leaf.op == 'list' else [mk('spl', leaf)]))
    return out
def leaves(t):
    """list of (leaf, guard)"""
    acc = {}
    order = []
    def go(x):
        if x.op != 'case':
            return {x: TRUE}
        res = {}
        for k, c in x.a[1]:
            for leaf, g in go(c).items():
                gg = mk_case(x.a[0], {k: g}, FALSE)
                res[leaf] = b_or(res[leaf], gg) if leaf in res else gg
        if x.a[2] is not None:
            for leaf, g in go(x.a[2]).items():
                d = {k: FALSE for k, _ in x.a[1]}
                gg = mk_case(x.a[0], d, g)
                res[leaf] = b_or(res[leaf], gg) if leaf in res else gg
        return res
    return list(go(t).items())
def seg_if(g, segs):
    l = mk_list(segs)
    segs = l.a if l.op == 'list' else (mk('spl', l),)
    if len(segs) == 1 and segs[0].op == 'if':
        return mk('if', b_and(g, segs[0].a[0]), *segs[0].a[1:])
    return mk('if', g, *segs)
def item(x): return mk('item', x)
def norm_item(x):
    return BOT if x is BOT else mk('item', x)
NORM['list'] = lambda *s: mk_list(s)
NORM['if'] = lambda g, *s: seg_if(g, s)
def norm_spl(t):
    if t.op == 'list': return t
    if t.op == 'case': return mk_list(segs_of(t))
    return mk('spl', t)
NORM['spl'] = norm_spl
def norm_for(L, d, *s):
    if L.op in ('list', 'case'):
        # the list became concrete: unroll
        out = []
        for g in segs_of(L):
            out.extend(for_over(g, L, d, s))
        return mk_list(out)
    return seg_for(L, d, s)
NORM['for'] = norm_for
def for_over(seg, L, d, body):
    if seg.op == 'item':
        return [subst_seg(b, {mk('elem', L, d): seg.a[0]}) for b in body]
    if seg.op == 'if':
        r = []
        for s in seg.a[1:]: r.extend(for_over(s, L, d, body))
        return [seg_if(seg.a[0], r)]
    if seg.op == 'for':
        r = []
        for s in seg.a[2:]: r.extend(for_over(s, L, d, body))
        return [seg_for(seg.a[0], seg.a[1], r)]
    if seg.op == 'spl':
        X = seg.a[0]
        return [seg_for(X, d, [subst_seg(b, {mk('elem', L, d): elem(X, d)}) for b in body])]
    return [seg]
def subst_seg(s, m):
    return subst(s, m)
def seg_for(L, d, segs):
    l = mk_list(segs)
    segs = l.a if l.op == 'list' else (mk('spl', l),)
    if not segs: return mk('list')
    if len(segs) == 1 and segs[0].op == 'item' and segs[0].a[0] is elem(L, d):
        return mk('spl', L)
    return mk('for', L, d, *segs)
def norm_first(L, d, g):
    if g is FALSE: return mk('adt', 'Option', 0)
    if L.op == 'case': return lift1(lambda l: norm_first(l, d, g), L)
    if L.op == 'list':
        l = norm_for(L, d, seg_if(g, [item(elem(L, d))]))
        return HEAD[0](l)
    return mk('first', L, d, g)
NORM['first'] = norm_first
HEAD = [None]
def elem(L, d):
    if L.op == 'call' and L.a[0] == 'upto': return mk('ix', L, d)
    return mk('elem', L, d)
def length(v):
    """number of elements of a list (bytes of a text)"""
    def f(l):
        if l.op == 'list':
            n = lint(0)
            for sg in l.a:
                if sg.op == 'item': n = add(n, lint(1))
                elif sg.op == 'spl': n = add(n, length(sg.a[0]))
                elif sg.op == 'for' and len(sg.a) == 3 and sg.a[2].op == 'item': n = add(n, length(sg.a[0]))
                else: return mk('call', 'len', l)
            return n
        if l.op == 'lit' and l.a[0] == 's': return lint(len(l.a[1].encode()))
        if l.op == 'lit' and l.a[0] == 'y': return lint(len(l.a[1]))
        if l.op == 'call' and l.a[0] == 'upto': return l.a[1]
        if l.op == 'call' and l.a[0] in ('sort', 'usort', 'rev'): return length(l.a[1])
        if l.op == 'call' and l.a[0] == 'strslice': return sub(l.a[3] if len(l.a) > 3 else length(l.a[1]), l.a[2])
        return mk('call', 'len', l)
    return lift1(f, v)
NORM['call:len'] = length
def merge_lists(atom, d, df):
    """guarded choice between lists -> common prefix + guarded segments"""
    alls = [(k, list(segs_of(t))) for k, t in d.items()]
    dl = list(segs_of(df)) if df is not None else None
    ls = [l for _, l in alls] + ([dl] if dl is not None else [])
    n = 0
    while all(len(l) > n for l in ls) and all(l[n] is ls[0][n] for l in ls): n += 1
    pre = ls[0][:n]
    # a list all of them end with
    e = 0
    while all(len(l) - e > n and l[-1 - e] is ls[0][-1 - e] and l[-1 - e].op == 'spl' for l in ls): e += 1
    suf = ls[0][len(ls[0]) - e:]
    out = list(pre)
    rest = {}
    order = []
    if e: alls = [(k, l[:-e]) for k, l in alls]; dl = dl[:-e] if dl is not None else None
    for k, l in alls:
        r = tuple(l[n:])
        if r not in rest: rest[r] = []; order.append(r)
        rest[r].append(k)
    dr = tuple(dl[n:]) if dl is not None else None
    for r in order:
        if r == dr: continue
        if r:
            g = mk_case(atom, {k: TRUE for k in rest[r]}, FALSE)
            out.append(seg_if(g, r))
    if dr:
        g = mk_case(atom, {k: FALSE for r in order for k in rest[r] if r != dr}, TRUE)
        out.append(seg_if(g, dr))
    return mk_list(out + list(suf))

# ---------------------------------------------------------------- display
def show(t, depth=0, lim=14):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(show(x, depth, lim) for x in t) + ')'
        return str(t)
    if depth > lim: return '…'
    n = depth + 1
    if t.op == 'lit':
        return repr(t.a[1]) if t.a[0] in 'sc' else ('()' if t.a[0] == 'u' else (('true' if t.a[1] else 'false') if t.a[0] == 'b' else str(t.a[1])))
    if t.op == 'sym': return str(t.a[0])
    if t.op == 'adt':
        return '%s#%s(%s)' % (t.a[0].split('::')[-1], t.a[1], ', '.join(show(x, n, lim) for x in t.a[2:]))
    if t.op == 'fld': return '%s.%s%s' % (show(t.a[0], n, lim), '' if t.a[1] == 0 else 'v%s.' % t.a[1], t.a[2])
    if t.op == 'call': return '%s(%s)' % (str(t.a[0]).split('::')[-1] if t.a[0].count('<') == 0 else t.a[0], ', '.join(show(x, n, lim) for x in t.a[1:]))
    if t.op == 'case':
        s = ' | '.join('%s→%s' % (k if isinstance(k, (int, str)) else k, show(x, n, lim)) for k, x in t.a[1])
        if t.a[2] is not None: s += ' | _→' + show(t.a[2], n, lim)
        return 'case %s {%s}' % (show(t.a[0], n, lim), s)
    if t.op == 'list': return '[' + '; '.join(show(x, n, lim) for x in t.a) + ']'
    if t.op == 'for': return 'for e%d∈%s {%s}' % (t.a[1], show(t.a[0], n, lim), '; '.join(show(x, n, lim) for x in t.a[2:]))
    if t.op == 'if': return 'if %s {%s}' % (show(t.a[0], n, lim), '; '.join(show(x, n, lim) for x in t.a[1:]))
    if t.op == 'item': return show(t.a[0], n, lim)
    if t.op == 'spl': return '*' + show(t.a[0], n, lim)
    if t.op == 'elem': return 'e%d⟨%s⟩' % (t.a[1], show(t.a[0], n, lim))
    if t.op == 'ix': return 'i%d⟨%s⟩' % (t.a[1], show(t.a[0], n, lim))
    if t.op == 'first': return 'first e%d∈%s if %s' % (t.a[1], show(t.a[0], n, lim), show(t.a[2], n, lim))
    if t.op == 'add':
        return '(' + ' + '.join(([str(t.a[0])] if t.a[0] else []) + [('%d*' % k if k != 1 else '') + show(x, n, lim) for k, x in t.a[1]]) + ')'
    return '%s(%s)' % (t.op, ', '.join(show(x, n, lim) for x in t.a))

# ---------------------------------------------------------------- equivalence
def deep_atoms(t, memo=None):
    """atoms of case nodes anywhere inside t"""
    seen = set(); out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'case': out.append(x.a[0])
        st.extend(children(x))
    return out

class Undecided(Exception): pass
class _Other: pass
OTHER = _Other()
def INFEASIBLE(path):
    from . import theory
    return theory.contradiction(path)

def equiv(a, b, budget=None, path=(), under=TRUE, accept=None):
    """None if equal for all atom values (satisfying `under`), else a witness (path, leafA, leafB);
    a witness that satisfies `accept` is preferred"""
    if budget is None: budget = [20000]
    memo = set()
    acc = (accept, []) if accept else None
    try: w = _equiv(a, b, budget, path, memo, under, acc)
    except Undecided:
        if acc and acc[1]: return acc[1][0]
        raise
    return w or (acc[1][0] if acc and acc[1] else None)

def every_fact(t, path):
    """what the path says of every element of the list `t` runs over"""
    g = TRUE
    for m, v in path:
        if v == 0 and m.op == 'disc' and m.a[0].op == 'first' and m.a[0].a[0] is t.a[0]:
            f = m.a[0]; c = f.a[2]
            if f.a[1] != t.a[1]: c = subst(c, {elem(t.a[0], f.a[1]): elem(t.a[0], t.a[1]), mk('ix', t.a[0], f.a[1]): mk('ix', t.a[0], t.a[1])})
            g = b_and(g, b_not(c))
    return g
def decided(path, m, v):
    """the path excludes outcome v of decision m"""
    for x, w in path:
        if x is m:
            if isinstance(w, tuple): 
                if not isinstance(v, tuple) and v in w[1]: return True
            elif isinstance(v, tuple):
                if w in v[1]: return True
            elif v != w: return True
    return False
def clash(path, budget):
    """two decisions of the path that are the same decision, given the path, with different outcomes"""
    n = len(path)
    for i in range(n):
        x, v = path[i]
        for j in range(i):
            y, w = path[j]
            if x.op != y.op or x is y or x.op not in ('disc', 'call') or shape(x) != shape(y): continue
            if isinstance(v, tuple) == isinstance(w, tuple): differ = v != w and not isinstance(v, tuple)
            else:
                a, b = (v, w) if isinstance(w, tuple) else (w, v)
                differ = a in b[1]
            if not differ: continue
            # the two themselves cannot help to show them the same
            rest = tuple(pv for pv in path if pv[0] is not x and pv[0] is not y)
            k = (x, y, rest)
            if k not in _CL:
                if budget[0] < 100: continue
                _CL[k] = False
                b = [300]
                try: _CL[k] = _equiv(x, y, b, rest, set()) is None
                except Undecided: pass
                budget[0] -= 300 - max(0, b[0])
            if _CL[k]: return True
    return False
_CL = {}
def shape(x):
    while x.op in ('disc', 'fld'): x = x.a[0]
    return (x.op, x.a[0] if x.op in ('call', 'sym', 'adt') else len(x.a))
_PU = [0]      # uses of facts of the path: what depends on them is not remembered
def _rem(memo, k, u0):
    if _PU[0] == u0: memo.add(k)
def _equiv(a, b, budget, path, memo, g=TRUE, acc=None):
    u0 = _PU[0]
    if a is b or g is FALSE or g is BOT: return None
    if (a, b, g) in memo: return None
    budget[0] -= 1
    if budget[0] < 0: raise Undecided()
    m = top([a, b, g])
    if m is not None:
        vs, dfl = split_vals([a, b, g], m)
        for v in vs:
            if decided(path, m, v): _PU[0] += 1; continue
            h = assume(g, m, v)
            if h is FALSE or h is BOT: continue
            x, y = assume(a, m, v), assume(b, m, v)
            if x is BOT or y is BOT: continue
            w = _equiv(x, y, budget, path + ((m, v),), memo, h, acc)
            if w: return w
        if dfl:
            x = branches(a, m)[1]; y = branches(b, m)[1]; h = branches(g, m)[1]
            if decided(path, m, ('not', tuple(vs))): x = None; _PU[0] += 1
            if x is not None and y is not None and h is not None and x is not BOT and y is not BOT:
                w = _equiv(x, y, budget, path + ((m, ('not', tuple(vs))),), memo, h, acc)
                if w: return w
        _rem(memo, (a, b, g), u0)
        return None
    g = TRUE
    if a is BOT or b is BOT: return None
    if a.op == b.op and (len(a.a) == len(b.a) or a.op == 'for'):
        if a.op == 'adt' and a.a[:2] == b.a[:2]:
            for x, y in zip(a.a[2:], b.a[2:]):
                w = _equiv(x, y, budget, path, memo, TRUE, acc)
                if w: return w
            _rem(memo, (a, b, g), u0); return None
        if a.op in ('call', 'fld', 'item', 'for', 'if', 'list', 'disc', 'spl', 'first', 'fold', 'elem', 'ix', 'mref') :
            ok = True; outer = path
            if a.op in BINDERS:     # facts about the element of an enclosing binder of the same name say nothing about this one
                bound = {(t.a[0].id, t.a[1]) for t in (a, b)}
                path = tuple(p for p in path if not (fv(p[0]) & bound))
            every = every_fact(a, path) if a.op == 'for' and a.a[0] is b.a[0] and a.a[1] == b.a[1] else TRUE
            if every is not TRUE:
                _PU[0] += 1
                if _equiv(mk_list(list(a.a[2:])), mk_list(list(b.a[2:])), budget, path, set(), every) is None: return None
                ok = False
            if len(a.a) != len(b.a): ok = False
            for x, y in zip(a.a, b.a):
                if isinstance(x, T) and isinstance(y, T):
                    w = _equiv(x, y, budget, path, memo)
                    if w: ok = False; break
                elif isinstance(x, tuple) and isinstance(y, tuple):
                    if x != y: ok = False; break
                elif x != y: ok = False; break
            if ok: _rem(memo, (a, b, g), u0); return None
            path = outer
    for x, y in ((a, b), (b, a)):
        # a value rebuilt from the parts of another
        if x.op == 'adt' and y.op in ('sym', 'fld', 'elem', 'call'):
            dy = mk('disc', y)
            if (dy, x.a[1]) in path or (x.a[1] == 0 and dy not in DOM and len(x.a) > 2):
                if all(_equiv(z, fld(y, x.a[1], i), budget, path, memo) is None for i, z in enumerate(x.a[2:])):
                    _PU[0] += 1; return None
    if a.op == 'list' and b.op == 'list' and a.a and b.a:
        # drop equal segments at both ends
        xs, ys = list(a.a), list(b.a)
        def same(x, y):
            if x is y: return True
            if x.op != y.op: return False
            try: return _equiv(x, y, [300], path, set()) is None
            except Undecided: return False
        while xs and ys and same(xs[0], ys[0]): xs.pop(0); ys.pop(0)
        while xs and ys and same(xs[-1], ys[-1]): xs.pop(); ys.pop()
        if len(xs) < len(a.a):
            w = _equiv(mk_list(xs), mk_list(ys), budget, path, memo, TRUE, acc)
            if w: return w
            _rem(memo, (a, b, g), u0); return None
    # lists: decide the guard of the first guarded segment
    for l in (a, b):
        if l.op != 'list': continue
        for sg in l.a:
            if sg.op == 'if' and sg.a[0].op == 'case':
                m = sg.a[0].a[0]
                vs, dfl = split_vals([sg.a[0]], m)
                for v in vs + ([OTHER] if dfl else []):
                    if decided(path, m, v if v is not OTHER else ('not', tuple(vs))): continue
                    w = _equiv(assume(a, m, v), assume(b, m, v), budget, path + ((m, v if v is not OTHER else ('not', tuple(vs))),), memo, TRUE, acc)
                    if w: return w
                _rem(memo, (a, b, g), u0); return None
    # equal after splitting on an inner decision?
    for x in (a, b):
        for at in deep_atoms(x):
            if at in DOM and not (fv(at) - fv(a) - fv(b)):
                ok = True
                bad = None
                for v in DOM[at]:
                    p, q = assume(a, at, v), assume(b, at, v)
                    if p is a and q is b: ok = False; break
                    w = _equiv(p, q, budget, path + ((at, v),), memo, TRUE, acc)
                    if w: return w
                if ok:
                    _rem(memo, (a, b, g), u0); return None
    if path and (INFEASIBLE(path) or clash(path, budget)): _PU[0] += 1; return None
    if acc is not None and not acc[0](path, a, b):
        acc[1].append((path, a, b)); _rem(memo, (a, b, g), u0); return None
    return (path, a, b)
