"""Rule harness: locate a function of the analysed program, obtain its value-flow
normal form, and compare it with the declarative specification of a rule."""
import re, signal, time, os
from engine import mir, ev, leafs
from engine import terms as tm
from engine.terms import *
from engine.leafs import call

class Missing(Exception): pass
class TimeUp(Exception): pass
def _alarm(*a): raise TimeUp()

TAINT_OPS = {'fold', 'loopx', 'lv', 'uninit', 'loopsig', 'iterone', 'iterdone', 'iterpart', 'iternone', 'mref'}
TAINT_CALLS = {'rxmatch', 'chars', 'bytes', 'char_indices', 'dangling', 'apply', 'deep', 'closure?', 'fmtargs', 'opaque-const', 'loopout', 'loopexit', 'agg',
               'repeat', 'fmt?', 'partial', 'probe-next', 'xupd', 'lupd', 'enumerate'}

def tainted(t, allowed=frozenset()):
    """first sub-term the analysis could not interpret (None: fully interpreted)"""
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x in allowed: continue
        if x.op in TAINT_OPS: return x
        if x.op == 'call' and (x.a[0] in TAINT_CALLS or x.a[0].startswith(('ext:', 'rv:', 'un:', 'rec:', 'const:', 'default['))): return x
        if x.op == 'sym' and str(x.a[0]).startswith(('opaque:', 'const:')): return x
        st.extend(children(x))
    return None

NONLIN = ('shl', 'shr', 'pow', 'clz', 'ctz', 'popcount', 'mul', 'div', 'rem', 'bitxor', 'bitnot', 'ilog')
def nonlin(x):
    if x.op != 'call': return None
    return next((n for n in NONLIN if x.a[0] == n or (n in ('clz', 'ctz', 'popcount', 'ilog') and x.a[0].startswith(n))), None)
def new_op(t, ops):
    """arithmetic that the specification does not use: no complete theory for it here"""
    for x in subterms(t):
        n = nonlin(x)
        if n is not None and n not in ops: return x
    return None

def subterms(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(children(x))
    return seen

OPAQUE_TI = {'svd_parser::Parse::parse', 'svd_encoder::Encode::encode', 'svd_encoder::Encode::encode_with_config',
             'svd_encoder::EncodeChildren::encode_children', 'svd_encoder::EncodeChildren::encode_children_with_config',
             'svd_rs::DeriveFrom::derive_from'}

def nblocks(fn): return len(fn.get('b') or ())

class Ctx:
    def __init__(s, dump):
        s.P = mir.Prog(dump)
        s.cache = {}
        s.analysed = {}         # function -> number of MIR blocks analysed
        s.obl = []              # obligations of the current check
        s.byimpl = {}
        for f in s.P.fns.values():
            if not f['cr'].startswith('svd') or f['kind'] != 'fn' or '{closure' in f['name']: continue
            m = re.search(r'<impl (\S.*?) for (.*)>::(\w+)$', f['name']) or None
            if m: tr, ty, me = m.groups()
            else:
                m = re.match(r'<(.*) as (.*?)>::(\w+)$', f['name'])
                if m: ty, tr, me = m.groups()
                else: continue
            s.byimpl.setdefault((re.sub(r'<.*', '', tr).split('::')[-1] + '::' + me, ty), []).append(f)
        s.E = ev.Ev(s.P)   # also registers enum domains

    # ------------------------------------------------------------ lookup
    def fn(s, name):
        """function by resolved path (first instance)"""
        l = s.P.by_name.get(name)
        if not l: raise Missing(name)
        return l[0]
    def impl(s, traitm, ty):
        """method of a trait implementation: impl('Parse::parse', 'svd_rs::Cpu')"""
        l = s.byimpl.get((traitm, ty))
        if not l: raise Missing('%s for %s' % (traitm, ty))
        return l[0]
    def has(s, name): return name in s.P.by_name
    def fields(s, ty):
        t = s.P.adt_by_name.get(ty)
        if t is None: raise Missing('type ' + ty)
        return [f[0] for f in t['v'][0]['f']]
    def variants(s, ty):
        t = s.P.adt_by_name.get(ty)
        if t is None: raise Missing('type ' + ty)
        return [v['n'] for v in t['v']]
    def tid(s, ty):
        t = s.P.adt_by_name.get(ty)
        if t is None: raise Missing('type ' + ty)
        return t['id']

    # ------------------------------------------------------------ analysis
    def run(s, fn, opaque=None, key='std', args=None, limit=None, summ=None):
        """opaque: set of names / trait items kept symbolic, in addition to the recursive
        Parse/Encode/derive_from trait items"""
        opq = frozenset(opaque or ())
        k = (fn['key'], opq, key, tuple(args) if args else None, tuple(sorted(summ)) if summ else None)
        if k in s.cache:
            r = s.cache[k]
            if isinstance(r, Exception): raise r
            return r
        def isop(f):
            if 'all' in opq and f['key'] != fn['key']: return True
            n = f['name']
            if f['key'] == fn['key']: return False
            if summ and f['key'] in summ: return True
            if 'none' in opq: return n in opq or f['ti'] in opq
            if f['ti'] == 'svd_parser::Parse::parse' and f['key'] in s.private_readers(): return n in opq
            if f['key'] in s.plain_writers(): return n in opq
            return f['ti'] in OPAQUE_TI or n in opq or f['ti'] in opq or ('*::' + n.split('::')[-1]) in opq
        e = ev.Ev(s.P, isop)
        e.summ = summ or {}
        e.any_dim = 'any dim' in opq
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit or 90)
        try:
            r = e.run(fn, args)
        except (TimeUp, RecursionError, ev.Unsupported, AssertionError, KeyError, IndexError, AttributeError, TypeError, NotImplementedError) as x:
            s.cache[k] = Unknown('%s: %s' % (type(x).__name__, str(x)[:120]))
            raise s.cache[k]
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        s.analysed[fn['name']] = nblocks(fn)
        for f in e.inlined: s.analysed[f] = sum(nblocks(x) for x in s.P.by_name.get(f, ())[:1])
        s.cache[k] = r
        return r

    def private_readers(s):
        """readers of types private to the parser crate are part of whatever uses them"""
        if not hasattr(s, '_pr'):
            s._pr = set()
            for (m, ty), fs in s.byimpl.items():
                if m == 'Parse::parse' and ty.startswith('svd_parser::') and ty != 'svd_parser::types::BoolParse': s._pr |= {f['key'] for f in fs}
        return s._pr

    def plain_writers(s):
        """writers whose text cannot depend on the configuration are part of whatever uses them"""
        if not hasattr(s, '_pw'):
            from . import model_encode
            s._pw = model_encode.leaf_encoders(s)
        return s._pw

    # ------------------------------------------------------------ term helpers
    def args(s, fn):
        """symbolic parameters of fn, as the analysis names them"""
        r = []
        for i in range(fn['argc']):
            t = s.P.types[fn['locals'][i + 1]]
            while t['k'] == 'ref': t = s.P.types[t['t']]
            v = mk('sym', '$%d' % (i + 1), t['s'])
            if s.P.types[fn['locals'][i + 1]]['k'] == 'bool': v = atom_bool(v)
            r.append(v)
        return r
    def is_variant(s, x, ty, *vs):
        return s.match(x, ty, {v: TRUE for v in vs}, FALSE)
    def lang(s, pattern, x):
        """text x is in the language of the pattern"""
        return lift1(lambda l: leafs.rxmatch(call('regex', lstr(pattern)), l), x)
    def first(s, L, g, d=1):
        """first element of list L satisfying g (a function of the element), as an option"""
        return lift1(lambda l: s.E.head(s.filter(l, g, d)), L)
    def exists(s, L, g, d=1): return s.is_some(s.first(L, g, d))
    def forall(s, L, g, d=1): return b_not(s.exists(L, lambda e: b_not(g(e)), d))
    def nonempty(s, L): return s.E.nonempty(L)
    def fmap(s, L, f, d=1):
        """list of the segments f(element) of every element"""
        return lift1(lambda l: mk_list(sum([f_over(g, f, d) for g in segs_of(l)], [])), L)
    def filter(s, L, g, d=1): return s.fmap(L, lambda e: [seg_if(g(e), [item(e)])], d)
    def opt(s, x, some, none):
        """match an option term"""
        return ite(s.is_some(x), some(s.some(x)), none)
    def F(s, x, ty, field, var=0):
        return fld(x, var, s.P.field_index(ty, field, var))
    def struct(s, ty, fs):
        names = s.fields(ty)
        for k in fs:
            if k not in names: raise Missing('field %s.%s' % (ty, k))
        miss = [n for n in names if n not in fs]
        if miss: raise SpecGap('%s: no rule for field %s' % (ty, miss))
        return adt(ty, 0, *[fs[n] for n in names])
    def variant(s, ty, var, *fs):
        try: i = s.P.variant_index(s.tid(ty), var)
        except KeyError: raise Missing('variant %s::%s' % (ty, var))
        return adt(ev.NAMES.get(ty, ty), i, *fs)
    def vi(s, ty, var):
        try: return s.P.variant_index(s.tid(ty), var)
        except KeyError: raise Missing('variant %s::%s' % (ty, var))
    def disc(s, x, ty=None):
        """discriminant; ty None: Option/Result"""
        return disc(x, s.P.dom(s.tid(ty)), ev.NAMES.get(ty, ty))
    def is_some(s, x): return lift1(lambda l: guard_eq(disc(l, (0, 1), 'Option'), 1), x)
    def is_ok(s, x): return lift1(lambda l: guard_eq(disc(l, (0, 1), 'Result'), 0), x)
    def some(s, x): return fld(x, 1, 0)
    def okv(s, x): return fld(x, 0, 0)
    def match(s, x, ty, arms, default=None):
        """arms: {variant name: term}"""
        return mk_case(s.disc(x, ty), {s.vi(ty, k): v for k, v in arms.items()}, default)

def f_over(sg, f, d):
    if sg.op == 'item': return f(sg.a[0])
    if sg.op == 'if': return [seg_if(sg.a[0], sum([f_over(x, f, d) for x in sg.a[1:]], []))]
    if sg.op == 'for': return [seg_for(sg.a[0], sg.a[1], sum([f_over(x, f, d) for x in sg.a[2:]], []))]
    X = sg.a[0]
    return [seg_for(X, d, f(elem(X, d)))]

class Unknown(Exception): pass
class SpecGap(Exception): pass

class Check:
    """obligations of one property"""
    def __init__(s, ctx, pid):
        s.c = ctx; s.pid = pid; s.rows = []; s.rules = []
    def rule(s, text): s.rules.append(text)
    def add(s, fn, what, status, detail=''):
        s.rows.append(dict(fn=fn if isinstance(fn, str) else fn['name'], sp='' if isinstance(fn, str) else fn['sp'],
                           what=what, status=status, detail=detail))
    def viol(s, fn, what, detail): s.add(fn, what, 'violation', detail)
    def ok(s, fn, what): s.add(fn, what, 'ok')
    def unk(s, fn, what, why): s.add(fn, what, 'undecided', why)

    def guarded(s, what, f, anchor=None, private=False):
        """run one obligation builder, turning engine limits into 'undecided'"""
        try:
            f()
        except Missing as x:
            if private: s.unk(anchor or str(x), what, 'anchor not present: %s' % x)
            else: s.viol(anchor or str(x), what, 'the construct this rule is anchored to is gone: %s' % x)
        except SpecGap as x: s.unk(anchor or str(x), what, 'outside the specification: %s' % x)
        except Unknown as x: s.unk(anchor or '?', what, 'analysis gave no normal form: %s' % x)
        except Undecided: s.unk(anchor or '?', what, 'comparison budget exhausted')
        except TimeUp: s.unk(anchor or '?', what, 'time')
        except Exception as x:
            if os.environ.get('SVD_DEBUG'): raise
            s.unk(anchor or '?', what, 'rule not applicable here: %s: %s' % (type(x).__name__, str(x)[:160]))

    def either(s, *alts):
        """the obligations of one alternative reading of the code suffice"""
        n = len(s.rows); best = None
        for f in alts:
            del s.rows[n:]
            try: f()
            except (Unknown, Undecided, TimeUp) as x: s.unk('?', 'alternative', 'analysis gave no normal form: %s' % x)
            new = s.rows[n:]
            if all(r['status'] == 'ok' for r in new): return
            if best is None or (any(r['status'] == 'violation' for r in new) and not any(r['status'] == 'violation' for r in best)): best = new
        del s.rows[n:]; s.rows.extend(best)

    def same(s, fn, what, found, want, under=None, notes=(), known=()):
        """found == want (as guarded values, for all atom values), under guard `under`;
        known: further terms whose arithmetic the specification takes for what it is"""
        old = signal.signal(signal.SIGALRM, _alarm); signal.alarm(60)
        wanted = subterms(want)
        ops = {nonlin(x) for x in wanted}
        ops |= {nonlin(x) for x in known}
        unk_ref = next((n for n in notes if 'unknown reference' in n), None)
        def unclear(path, a, b):
            """why the difference may be the analysis' and not the code's"""
            if unk_ref: return unk_ref
            for at, _ in path:
                if at not in wanted:
                    t = tainted(at, wanted) or new_op(at, ops)
                    if t is not None: return t
            t = tainted(a, wanted)
            return t if t is not None else new_op(a, ops)
        try:
            w = equiv(found, want, under=under if under is not None else TRUE, accept=lambda p, a, b: unclear(p, a, b) is None)
        except (Undecided, TimeUp, RecursionError) as x:
            s.unk(fn, what, 'comparison: %s' % type(x).__name__); return False
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        if w is None:
            s.ok(fn, what); return True
        path, a, b = w
        bad = unclear(path, a, b)
        p = ' & '.join('%s=%s' % (show(x, 0, 5), v) for x, v in path[:8])
        det = 'when [%s]: found %s, specified %s' % (p, cut(show(*first_diff(a, b)[:1], 0, 7)), cut(show(first_diff(a, b)[1], 0, 7)))
        if bad is not None:
            s.unk(fn, what, 'not comparable (%s); %s' % (cut(show(bad, 0, 4) if isinstance(bad, T) else bad, 120), det)); return False
        s.viol(fn, what, det); return False

def cut(x, n=400): return x if len(x) <= n else x[:n] + '…'
def first_diff(a, b):
    """descend to the smallest differing pair"""
    while True:
        if a.op == b.op and a.op in ('adt', 'call', 'list', 'item', 'fld', 'if', 'for', 'disc') and len(a.a) == len(b.a):
            ds = [(x, y) for x, y in zip(a.a, b.a) if x is not y and x != y]
            if len(ds) == 1 and isinstance(ds[0][0], T) and isinstance(ds[0][1], T): a, b = ds[0]; continue
        return a, b
