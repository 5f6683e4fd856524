"""Guarded value-flow analysis of MIR bodies (forward dataflow, no path
enumeration): every block gets one guard and one merged abstract store; callees
are inlined from their own MIR, loops are summarised."""
from .terms import *
from .terms import _tc
from . import terms as tm
from . import mir

TRANSPARENT = {'std::boxed::Box', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::ptr::Unique',
               'std::ptr::NonNull', 'core::mem::maybe_dangling::MaybeDangling', 'std::mem::MaybeDangling', 'std::pin::Pin', 'std::borrow::Cow'}
NAMES = {'std::option::Option': 'Option', 'std::result::Result': 'Result'}

class Unsupported(Exception): pass

def call1(n, *xs): return mk('call', n, *xs)

def bitor2(x, y):
    ps = set(); k = 0; st = [x, y]
    while st:
        z = st.pop()
        if z.op == 'call' and z.a[0] == 'bitor': st += [z.a[1], z.a[2]]
        elif z.op == 'lit' and isinstance(z.a[1], int): k |= z.a[1]
        else: ps.add(z)
    ps = sorted(ps, key=lambda z: z.id)
    if k or not ps: ps.append(lint(k))
    r = ps[0]
    for z in ps[1:]: r = mk('call', 'bitor', r, z)
    return r
def _nbitor(x, y): return lift(bitor2, (x, y))
def _orsegs(segs):
    """segments of or-ed terms: nested unions and choices become segments"""
    out = []
    for sg in segs:
        if sg.op == 'item':
            x = sg.a[0]
            if x.op == 'case':
                for l, g in leaves(x): out.append(seg_if(g, _orsegs([item(l)])))
            elif x.op == 'lit' and x.a[1] == 0: pass
            elif x.op == 'call' and x.a[0] == 'bitor': out += _orsegs([item(x.a[1]), item(x.a[2])])
            elif x.op == 'call' and x.a[0] == 'bitorall': out += _orsegs(segs_of(x.a[1]))
            else: out.append(sg)
        elif sg.op == 'if': out.append(seg_if(sg.a[0], _orsegs(sg.a[1:])))
        elif sg.op == 'for': out.append(seg_for(sg.a[0], sg.a[1], _orsegs(sg.a[2:])))
        else: out.append(sg)
    return out
def _nbitorall(l):
    if l.op == 'case': return lift1(_nbitorall, l)
    if l.op == 'list': l = mk_list(_orsegs(l.a))
    return lint(0) if l.op == 'list' and not l.a else mk('call', 'bitorall', l)
tm.NORM['call:bitor'] = _nbitor
tm.NORM['call:bitorall'] = _nbitorall
tm.NOLIFT.add('bitorall')

def shr2(x, y):
    if x.op == 'lit' and x.a[1] == 0: return lint(0)
    if x.op == 'lit' and y.op == 'lit': return lint(x.a[1] >> y.a[1])
    if x.op == 'lit' and x.a[1] + 1 in (1 << 8, 1 << 16, 1 << 32, 1 << 64):
        # the lowest k - y bits
        w = sub(lint((x.a[1] + 1).bit_length() - 1), y)
        cw, dw = poly(w)
        if cw >= 0 and all(n > 0 for n in dw.values()): return sub(mk('call', 'pow', lint(2), w), lint(1))
    return mk('call', 'shr', x, y)
def _npow(x, y):
    def f(p, q):
        if p.op == 'lit' and q.op == 'lit' and 0 <= q.a[1] < 256: return lint(p.a[1] ** q.a[1])
        return mk('call', 'pow', p, q)
    return lift(f, (x, y))
tm.NORM['call:index'] = lambda v, i: _HE.index(v, i)
tm.NORM['call:pow'] = _npow
tm.NORM['call:shr'] = lambda x, y: lift(shr2, (x, y))

class Ev:
    def __init__(s, prog, opaque=None, inline_limit=60):
        s.p = prog
        s.events = []          # panic-capable sites: dict(kind, guard, fn, ...)
        s.opaque = opaque or (lambda fn: False)
        s.nframe = 0
        s.nheap = 0
        s.stack = []
        s.binders = []         # open (L, d)
        s.notes = []
        s.inlined = set()
        s.trace_calls = []     # opaque project calls seen: (key/name, args, pc)
        s.limit = inline_limit
        s.steps = 0
        s.hitlog = []
        s.loop_probe = []
        s.pathty = {}
        s.summ = {}            # function key -> (values of the arguments -> {argument: value after the call})
        for n, t in prog.adt_by_name.items():
            if t['e']:
                nm = NAMES.get(n, n)
                tm.ENUMS.add(nm)
                if nm not in tm.ADT_DOM: tm.ADT_DOM[nm] = prog.dom(t['id'])
                tm.NULLARY[nm] = {i for i, v in enumerate(t['v']) if not v['f']}
        tm.ADT_DOM['Option'] = (0, 1); tm.ADT_DOM['Result'] = (0, 1)

    # ------------------------------------------------------------ types
    def tyname(s, i):
        t = s.p.types[i]
        return NAMES.get(t['n'], t['n'])
    def tstr(s, i): return s.p.types[i]['s']
    def dom_of(s, i):
        t = s.p.types[i]
        if t['k'] == 'adt' and t['e']: return s.p.dom(i)
        return None

    # ------------------------------------------------------------ memory
    # mem: dict root -> T;  root = (frame, local) | ('h', n) | ('p', n)
    def read_path(s, v, path):
        for e in path:
            if e[0] == 'f': v = fld(v, e[1], e[2])
            elif e[0] == 'e': v = s.read_elem(v, e[1])
            elif e[0] == 'x': v = s.index(v, e[1])
        return v
    def read_elem(s, v, t):
        # current value of list element t inside list value v
        def f(l):
            x = l
            while x.op == 'call' and x.a[0] == 'lupd':
                if x.a[2] is t: return x.a[3]
                x = x.a[1]
            return t
        return lift1(f, v)
    def write_path(s, v, path, nv):
        if not path: return nv
        e = path[0]
        if v.op == 'case' and not (e[0] == 'f'):
            return lift1(lambda l: s.write_path(l, path, nv), v)
        if e[0] == 'f':
            if v.op == 'case': return lift1(lambda l: s.write_path(l, path, nv), v)
            if v.op == 'adt':
                if v.a[1] != e[1]: return BOT
                fs = list(v.a[2:])
                while len(fs) <= e[2]: fs.append(mk('uninit'))
                fs[e[2]] = s.write_path(fs[e[2]], path[1:], nv)
                if any(f.op == 'uninit' for f in fs): return mk('adt', v.a[0], v.a[1], *fs)
                return adt(v.a[0], v.a[1], *fs)
            if v is BOT: return BOT
            # opaque struct value: record functional update
            old = fld(v, e[1], e[2])
            return fupd(v, e[1], e[2], s.write_path(old, path[1:], nv))
        if e[0] == 'e':
            old = s.read_elem(v, e[1])
            return s.lupd(v, e[1], s.write_path(old, path[1:], nv))
        if e[0] == 'x':
            old = s.index(v, e[1])
            return mk('call', 'xupd', v, e[1], s.write_path(old, path[1:], nv))
    def lupd(s, v, t, nv):
        if v.op == 'list':
            hit = [False]
            def go(sg):
                if sg.op == 'item' and sg.a[0] is t: hit[0] = True; return mk('item', nv)
                if sg.op == 'if': return seg_if(sg.a[0], [go(x) for x in sg.a[1:]])
                return sg
            r = mk_list([go(x) for x in v.a])
            if hit[0]: return r
        if v.op == 'call' and v.a[0] == 'lupd' and v.a[2] is t:
            return mk('call', 'lupd', v.a[1], t, nv)
        return mk('call', 'lupd', v, t, nv)

    def deref(s, v, mem):
        def f(l):
            if l.op == 'mref':
                root, path = l.a
                b = mem.get(root)
                if b is None: return mk('call', 'dangling')
                return s.deref(s.read_path(b, path), mem) if False else s.read_path(b, path)
            return l
        return lift1(f, v)
    def deref_all(s, v, mem, n=0):
        """replace references by current values, recursively"""
        memo = {}
        def go(x):
            if not has_ref(x): return x
            if x in memo: return memo[x]
            if x.op == 'mref':
                root, path = x.a
                b = mem.get(root)
                r = go(s.read_path(b, path)) if b is not None else x
            else: r = rebuild(x, go)
            memo[x] = r
            return r
        return go(v)

    def fix_upd(s, v):
        return v

    # place -> (base value|root, path) ; returns list of alternatives for writing
    def resolve(s, fr, mem, place):
        """value-level resolution: returns ('root', root, path) for in-place
        places, or ('val', T) when the place lives in a shared value"""
        loc, proj = place
        cur = ('root', (fr.id, loc), ())
        ty = fr.fn['locals'][loc]
        var = 0
        for e in proj:
            t = s.p.types[ty]
            if e == '*':
                v = s.load(cur, mem)
                if t['k'] == 'adt': # Box
                    nty = t['a'][0] if t['a'] else ty
                else: nty = t.get('t', ty)
                cur = s.deref_loc(v, cur)
                ty = nty
            elif e == 'o':
                pass
            elif e[0] == 'd': var = e[1]
            elif e[0] == 'f':
                if t['k'] == 'adt' and t['n'] in TRANSPARENT:
                    ty = e[2]
                    continue
                for cu in ([cur] if cur[0] == 'root' else [x for _, x in cur[1] if x[0] == 'root'] if cur[0] == 'alts' else []):
                    if t['k'] == 'adt' and var < len(t['v']): s.pathty[(cu[1], cu[2], var)] = (s.tyname(ty), len(t['v'][var]['f']))
                    elif t['k'] == 'tuple': s.pathty[(cu[1], cu[2], var)] = ('()', len(t['a']))
                cur = s.proj(cur, ('f', var, e[1])); ty = e[2]; var = 0
            elif e[0] == 'i':
                iv = s.load(('root', (fr.id, e[1]), ()), mem)
                cur = s.proj(cur, ('x', iv)); ty = t.get('t', ty)
            elif e[0] == 'c':
                cur = s.proj(cur, ('x', lint(e[1]) if not e[3] else mk('call', 'fromend', lint(e[1])))); ty = t.get('t', ty)
            elif e[0] == 's':
                v = s.load(cur, mem)
                cur = ('val', mk('call', 'subslice', v, lint(e[1]), lint(e[2]), lbool(e[3])))
        return cur, ty
    def proj(s, cur, e):
        if cur[0] == 'root': return ('root', cur[1], cur[2] + (e,))
        if cur[0] == 'alts': return ('alts', [(g, s.proj(c, e)) for g, c in cur[1]])
        return ('val', s.read_path(cur[1], (e,)))
    def deref_loc(s, v, cur):
        if v.op == 'mref': return ('root', v.a[0], v.a[1])
        if v.op == 'case':
            lv = leaves(v)
            if any(l.op == 'mref' for l, _ in lv):
                return ('alts', [(g, s.deref_loc(l, cur)) for l, g in lv])
            return ('val', v)
        # shared reference / box: transparent
        if v.op in ('uninit',): return ('val', v)
        return ('box', cur, v)[0:0] or (cur if cur[0] == 'root' else ('val', v))
    def load(s, cur, mem):
        if cur[0] == 'val': return cur[1]
        if cur[0] == 'alts':
            r = BOT
            for g, c in cur[1]:
                v = s.load(c, mem)
                r = v if r is BOT else ite(g, v, r)
            return r
        b = mem.get(cur[1])
        if b is None: return mk('uninit')
        return s.read_path(b, cur[2])
    def store(s, cur, mem, nv):
        if cur[0] == 'val':
            s.notes.append('write through unknown reference in %s' % (s.stack[-1].fn['name'] if s.stack else '?'))
            return
        if cur[0] == 'alts':
            cs = [c for _, c in cur[1]]
            if all(c[0] == 'root' and c[1] == cs[0][1] for c in cs):
                n = 0
                while all(len(c[2]) > n for c in cs) and len({c[2][n] for c in cs}) == 1: n += 1
                nx = {c[2][n] for c in cs if len(c[2]) > n}
                if all(len(c[2]) > n and c[2][n][0] == 'f' for c in cs) and len({x[1] for x in nx}) == len(nx):
                    # one place per variant of an enum: the old value says which
                    at = ('root', cs[0][1], cs[0][2][:n])
                    old = s.load(at, mem); m0 = dict(mem); new = old
                    for i, (g, c) in enumerate(cur[1]):
                        m1 = dict(m0); s.store(c, m1, nv[i] if isinstance(nv, list) else nv)
                        new = ite(g, s.load(at, m1), new)
                    s.store(at, mem, new)
                    return
            for i, (g, c) in enumerate(cur[1]):
                old = s.load(c, mem)
                s.store(c, mem, ite(g, nv[i] if isinstance(nv, list) else nv, old))
            return
        root, path = cur[1], cur[2]
        b = mem.get(root)
        if not path: mem[root] = nv; return
        if b is None: b = mk('uninit')
        if b.op == 'uninit' and path:
            b = mk('adt', '?', path[0][1] if path[0][0] == 'f' else 0)
        for i, e in enumerate(path):
            if e[0] != 'f': continue
            pt = s.pathty.get((root, path[:i], e[1]))
            if pt is None: continue
            def ex(l):
                if l.op in ('adt', 'uninit', 'bot', 'mref', 'case') : return l
                return mk('adt', pt[0], e[1], *[fld(l, e[1], j) for j in range(pt[1])])
            o = s.read_path(b, path[:i])
            n = lift1(ex, o)
            if n is not o: b = s.write_path(b, path[:i], n) if i else n
        mem[root] = s.write_path(b, path, nv)

    # ------------------------------------------------------------ operands
    def operand(s, fr, mem, o):
        if o[0] in 'CM':
            cur, _ = s.resolve(fr, mem, o[1])
            return s.load(cur, mem)
        if o[0] == 'K': return s.const(o[1])
        return mk('call', 'opaque-const', lstr(str(o[1])))
    def op_ty(s, fr, o):
        if o[0] == 'K': return o[1]['ty']
        return s.place_ty(fr, o[1])
    def place_ty(s, fr, place):
        ty = fr.fn['locals'][place[0]]
        for e in place[1]:
            t = s.p.types[ty]
            if e == '*': ty = t['a'][0] if t['k'] == 'adt' else t.get('t', ty)
            elif isinstance(e, list) and e[0] == 'f': ty = e[2]
            elif isinstance(e, list) and e[0] in 'ic': ty = t.get('t', ty)
        return ty
    def const(s, c):
        if 'v' in c: return s.constv(c['v'], c['ty'])
        if 'cbody' in c:
            fn = s.p.fns.get(c['cbody'])
            if fn is not None and len(s.stack) < s.limit:
                sv = len(s.events)
                r, mem, g = s.call_body(fn, [], {}, TRUE, keep=True)
                del s.events[sv:]
                return s.deref_all(r, mem)
            return mk('call', 'const:' + c['cbody'])
        if 'static' in c: return sym('static:' + c['static'])
        if 'cname' in c: return sym('const:' + c['cname'])
        return sym('opaque:' + c.get('opaque', '?'))
    def constv(s, v, ty):
        if isinstance(v, dict):
            if 'bytes' in v: return mk('lit', 'y', tuple(v['bytes']))
            t = s.p.types[ty]
            while t['k'] in ('ref',): ty = t['t']; t = s.p.types[ty]
            fs = [s.constv(f['v'], f['ty']) for f in v['fs']]
            if t['k'] == 'adt' and t['n'] in ('std::string::String',): return lstr('')
            if t['k'] == 'adt' and t['n'] in ('std::vec::Vec',): return EMPTYL
            if t['k'] == 'adt' and not t['e'] and t['n'] in TRANSPARENT and fs: return fs[0]
            return adt(s.tyname(ty) if t['k'] == 'adt' else '()', v['var'], *fs)
        k, x = v[0], v[1:]
        if k == 'i': return lint(int(x))
        if k == 'b': return lbool(x == '1')
        if k == 'c': return lchar(x)
        if k == 's': return lstr(x)
        if k == 'u': return UNIT
        if k == 'f': return mk('fn', ty)
        if k == 'z':
            t = s.p.types[ty]
            return adt('closure:' + t['key'], 0)
        raise Unsupported('const ' + str(v))

    # ------------------------------------------------------------ rvalues
    def rvalue(s, fr, mem, r, pc, dty):
        k = r[0]
        if k == 'use': return s.operand(fr, mem, r[1])
        if k == 'ref':
            cur, ty = s.resolve(fr, mem, r[2])
            if r[1]:
                return s.mkref(cur, mem)
            v = s.load(cur, mem)
            return v
        if k == 'rawptr':
            cur, ty = s.resolve(fr, mem, r[1])
            return s.mkref(cur, mem)
        if k == 'discr':
            cur, ty = s.resolve(fr, mem, r[1])
            v = s.load(cur, mem)
            v = s.deref(v, mem)
            t = s.p.types[ty]
            if t['k'] == 'adt' and t['n'] == 'std::cmp::Ordering' and v.op not in ('adt', 'case'):
                pass
            return disc(v, s.dom_of(ty), s.tyname(ty) if t['k'] == 'adt' and t['e'] else None)
        if k == 'agg':
            ops = [s.operand(fr, mem, o) for o in r[2]]
            if any(o is BOT for o in ops): return BOT
            a = r[1]
            if a[0] == 'tuple': return tup(*ops) if ops else UNIT
            if a[0] == 'array': return mk_list([item(o) for o in ops])
            if a[0] == 'closure':
                return adt('closure:' + s.p.types[a[1]]['key'], 0, *ops)
            if a[0] == 'adt':
                t = s.p.types[a[1]]
                if t['n'] in TRANSPARENT and ops: return ops[0]
                if t['n'] == 'std::ops::RangeFull': return adt('std::ops::RangeFull', 0)
                return adt(s.tyname(a[1]), a[2], *ops)
            return mk('call', 'agg', *ops)
        if k == 'cast':
            v = s.operand(fr, mem, r[2])
            return s.cast(v, s.op_ty(fr, r[2]), r[3], r[1])
        if k == 'bin':
            a = s.operand(fr, mem, r[2]); b = s.operand(fr, mem, r[3])
            return s.binop(r[1], a, b, s.op_ty(fr, r[2]))
        if k == 'un':
            a = s.operand(fr, mem, r[2])
            if r[1] == 'Not':
                if s.p.types[s.op_ty(fr, r[2])]['k'] == 'bool': return b_not(s.asbool(a))
                t = s.p.types[s.op_ty(fr, r[2])]['s']
                bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}.get(t)
                return lift1(lambda l: lint((1 << bits) - 1 - l.a[1]) if l.op == 'lit' and bits else mk('call', 'bitnot', l), a)
            if r[1] == 'Neg': return scale(a, -1)
            if r[1] == 'PtrMetadata': return s.length(s.deref(a, mem))
            return mk('call', 'un:' + r[1], a)
        if k == 'repeat':
            v = s.operand(fr, mem, r[1])
            if 0 <= r[2] <= 64: return mk_list([item(v)] * r[2])
            return mk('call', 'repeat', v, lint(r[2]))
        return mk('call', 'rv:' + str(r[1])[:40])
    def mkref(s, cur, mem):
        if cur[0] == 'root': return mk('mref', cur[1], cur[2])
        if cur[0] == 'alts':
            r = None
            for g, c in cur[1]:
                x = s.mkref(c, mem)
                r = x if r is None else ite(g, x, r)
            return r
        # &mut of something reached through a shared value: give it its own cell
        s.nheap += 1
        root = ('h', s.nheap)
        mem[root] = cur[1]
        return mk('mref', root, ())
    def asbool(s, t):
        return lift1(lambda l: atom_bool(l), t)
    def cast(s, v, fty, tty, kind):
        f = s.p.types[s.p.strip_ref(fty)]; t = s.p.types[s.p.strip_ref(tty)]
        if kind.startswith('IntToInt') or kind.startswith('IntToFloat') or kind.startswith('FloatToInt'):
            def g(l):
                if l.op == 'lit' and l.a[0] == 'i' and t['k'] in ('int', 'uint'):
                    n = l.a[1] & ((1 << t['bits']) - 1)
                    if t['k'] == 'int' and n >> (t['bits'] - 1): n -= 1 << t['bits']
                    return lint(n)
                if l.op == 'lit' and l.a[0] == 'c': return lint(ord(l.a[1]))
                if f['k'] == 'bool': return ite(s.asbool(l), lint(1), lint(0))
                fb = f.get('bits', 32); tb = t.get('bits', 32)
                if f['k'] in ('uint', 'char', 'adt') and tb >= fb and (t['k'] == 'uint' or tb > fb): return l
                if f['k'] == 'int' and t['k'] == 'int' and tb >= fb: return l
                if l.op == 'disc': return l
                return mk('call', 'cast:%s->%s' % (f['s'], t['s']), l)
            return lift1(g, v)
        return v
    def binop(s, op, a, b, ty):
        t = s.p.types[s.p.strip_ref(ty)]
        uns = t['k'] in ('uint', 'char')
        if op in ('Add', 'AddUnchecked'): return add(a, b)
        if op in ('Sub', 'SubUnchecked'): return sub(a, b)
        if op in ('Mul', 'MulUnchecked'): return mul(a, b)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            o = op[:3]
            val = {'Add': add, 'Sub': sub, 'Mul': mul}[o](a, b)
            bits = t.get('bits', 64)
            def ov(x):
                if x.op == 'lit':
                    lo, hi = (0, (1 << bits) - 1) if uns else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                    return lbool(not (lo <= x.a[1] <= hi))
                return atom_bool(mk('call', 'ovf:%s' % t['s'], x))
            return tup(val, lt(a, b, True) if o == 'Sub' and uns else lift1(ov, val))
        if op == 'Eq': return s.asbool(eq(a, b))
        if op == 'Ne': return b_not(s.asbool(eq(a, b)))
        if op == 'Lt': return lt(a, b, uns)
        if op == 'Gt': return lt(b, a, uns)
        if op == 'Le': return b_not(lt(b, a, uns))
        if op == 'Ge': return b_not(lt(a, b, uns))
        if t['k'] == 'bool':
            a, b = s.asbool(a), s.asbool(b)
            if op == 'BitAnd': return b_and(a, b)
            if op == 'BitOr': return b_or(a, b)
            if op == 'BitXor': return ite(a, b_not(b), b)
        def g(x, y):
            if x.op == 'lit' and y.op == 'lit':
                m, n = x.a[1], y.a[1]
                try:
                    r = {'BitAnd': lambda: m & n, 'BitOr': lambda: m | n, 'BitXor': lambda: m ^ n, 'Shl': lambda: m << n, 'Shr': lambda: m >> n, 'Div': lambda: m // n, 'Rem': lambda: m % n}[op]()
                    return lint(r)
                except Exception: pass
            if op == 'Shl' and x.op == 'lit' and x.a == ('i', 1): return mk('call', 'pow', lint(2), y)
            if op == 'Shr': return shr2(x, y)
            if op == 'BitOr': return bitor2(x, y)
            if op in ('BitAnd', 'BitXor') and x.id > y.id: x, y = y, x
            return mk('call', op.lower(), x, y)
        op2 = op.replace('Unchecked', '')
        if op2 in ('ShlWithOverflow', 'ShrWithOverflow'):
            return tup(g(a, b), FALSE)
        op = op2
        return lift(g, (a, b))

    # ------------------------------------------------------------ bodies
    def basety(s, ty):
        t = s.p.types[ty]
        while t['k'] == 'ref': t = s.p.types[t['t']]
        return t['s']
    def run(s, fn, args=None):
        """analyse fn with symbolic arguments; returns Summary"""
        if isinstance(fn, str): fn = s.p.fns[fn]
        mem = {}
        if args is None: args = []
        nm = dict((i, n) for i, n in fn['names'])
        params = []
        for i in range(fn['argc']):
            ty = fn['locals'][i + 1]
            if i < len(args) and args[i] is not None:
                params.append(args[i]); continue
            t = s.p.types[ty]
            v = mk('sym', '$%d' % (i + 1), s.basety(ty))
            if t['k'] == 'ref' and t['m']:
                root = ('p', i + 1)
                mem[root] = v
                params.append(mk('mref', root, ()))
            else:
                if t['k'] == 'bool': v = atom_bool(v)
                params.append(v)
        s.events = []; s.notes = []; s.trace_calls = []
        r, mem, g = s.call_body(fn, params, mem, TRUE, keep=True)
        return Summary(s, fn, params, r, mem, g, s.events, s.notes, s.trace_calls)

    def run_on(s, fn, given):
        """run with given values of (some) reference parameters"""
        mem = {}; params = []
        for i in range(fn['argc']):
            ty = fn['locals'][i + 1]; t = s.p.types[ty]
            v = given.get(i + 1, mk('sym', '$%d' % (i + 1), s.basety(ty)))
            if t['k'] == 'ref' and t['m']:
                mem[('p', i + 1)] = v; v = mk('mref', ('p', i + 1), ())
            params.append(v)
        s.events = []; s.notes = []; s.trace_calls = []
        r, mem, g = s.call_body(fn, params, mem, TRUE, keep=True)
        return Summary(s, fn, params, r, mem, g, s.events, s.notes, s.trace_calls)

    def call_body(s, fn, args, mem, pc, keep=False):
        s.nframe += 1
        fr = Frame(s.nframe, fn)
        if fn['cr'].startswith('svd'): s.inlined.add(fn['name'])
        mem = dict(mem)
        for i, a in enumerate(args): mem[(fr.id, i + 1)] = a
        s.stack.append(fr)
        try:
            out = s.region(fr, None, 0, mem, TRUE, pc)
        finally:
            s.stack.pop()
        rets = out.get('ret')
        if not rets: return BOT, mem, FALSE
        g, p, m = s.merge(rets)
        r = m.get((fr.id, 0), UNIT)
        if not keep: m = {k: v for k, v in m.items() if k[0] != fr.id}
        return r, m, p

    def merge(s, lst):
        """lst: [(guard, pc, mem)] -> one"""
        lst = [x for x in lst if x[0] is not FALSE and x[0] is not BOT]
        if not lst: return FALSE, FALSE, {}
        if len(lst) == 1: return lst[0]
        G = FALSE; P = FALSE
        for g, p, _ in lst:
            G = b_or(G, g); P = b_or(P, p)
        u = units(G)
        gs = []
        for g, _, _ in lst:
            gs.append(assume_all(g, u) if u else g)
        keys = {}
        for _, _, m in lst:
            for k in m: keys[k] = None
        out = {}
        last = lst[-1][2]
        for k in keys:
            vs = [m.get(k) for _, _, m in lst]
            v0 = next(v for v in vs if v is not None)
            if all(v is v0 or v is None for v in vs):
                out[k] = v0; continue
            r = None
            for g, v in zip(reversed(gs), reversed(vs)):
                if v is None or v.op == 'uninit': continue
                r = v if r is None else ite(g, v, r)
            out[k] = r if r is not None else mk('uninit')
        return G, P, out

    def region(s, fr, header, start, mem, guard, pc):
        """forward pass over one acyclic region; returns {target: [(g,pc,mem)]}
        with targets: 'ret', blocks outside the region, or the header itself"""
        fn = fr.fn
        cfg = s.p.cfg(fn['key'])
        order, inner = cfg.region(header)
        inreg = set(order)
        blocks = None if header is None else cfg.loops[header]
        pend = {start: [(guard, pc, mem)]}
        out = {}
        def push(b, g, p, m):
            if g is FALSE or g is BOT: return
            if b == 'ret': out.setdefault('ret', []).append((g, p, m)); return
            if header is not None and (b == header or b not in blocks):
                out.setdefault(b, []).append((g, p, m)); return
            pend.setdefault(b, []).append((g, p, m))
        for b in order:
            lst = pend.pop(b, None)
            if not lst: continue
            g, p, m = s.merge(lst)
            if g is FALSE or p is FALSE: continue
            if b in cfg.loops and b != header:
                for tgt, ol in s.loop(fr, b, m, p).items():
                    for (g2, p2, m2) in ol:
                        push(tgt, b_and(g, g2), b_and(p, p2), m2)
                continue
            s.block(fr, b, g, p, dict(m), push)
        return out

    def block(s, fr, b, g, p, m, push):
        s.steps += 1
        if s.steps > 400000: raise Unsupported('step budget')
        blk = fr.fn['b'][b]
        for st in blk['s']:
            if st[0] == '=':
                cur, ty = s.resolve(fr, m, st[1])
                v = s.rvalue(fr, m, st[2], p, ty)
                s.store(cur, m, v)
            elif st[0] == 'sd':
                cur, ty = s.resolve(fr, m, st[1])
                t = s.p.types[ty]
                if t['n'] not in TRANSPARENT:
                    s.store(cur, m, adt(s.tyname(ty), st[2]))
        t = blk['t']
        k = t[0]
        if k == 'goto': push(t[1], g, p, m)
        elif k == 'drop': push(t[2], g, p, m)
        elif k == 'ret': push('ret', g, p, m)
        elif k == 'switch':
            sc = s.operand(fr, m, t[1])
            sc = s.known(sc, p)
            tk = s.p.types[t[2]]['k']
            if tk == 'bool': sc = s.asbool(sc)
            rest = TRUE
            byb = {}
            for v, tb in t[3]:
                vv = int(v)
                if tk == 'char': vv = chr(vv)
                gv = guard_eq(sc, vv)
                if tk == 'int' and False: pass
                byb[tb] = b_or(byb.get(tb, FALSE), gv)
                rest = b_and(rest, b_not(gv))
            if fr.fn['b'][t[4]]['t'][0] != 'unreach' or fr.fn['b'][t[4]]['s']:
                byb[t[4]] = b_or(byb.get(t[4], FALSE), rest)
            for tb, gv in byb.items():
                if gv is FALSE: continue
                p2 = b_and(p, gv)
                if p2 is FALSE: continue
                push(tb, b_and(g, gv), p2, dict(m))
        elif k == 'assert':
            c = s.known(s.asbool(s.operand(fr, m, t[1])), p)
            bad = b_not(c) if t[2] else c
            bad = b_and(p, bad)
            if bad is not FALSE:
                info = [s.operand(fr, m, o) for o in t[5]]
                s.event(t[4], bad, fr, b, info)
            push(t[3], g, b_and(p, c if t[2] else b_not(c)) if bad is not FALSE else p, m)
        elif k == 'call':
            s.call(fr, b, t, g, p, m, push)
        elif k in ('unreach', 'resume'): pass
        else:
            raise Unsupported('terminator ' + k)

    def known(s, v, p):
        if v.op == 'case' or v.op == 'disc' or True:
            if p is TRUE: return v
            u = units(p)
            if not u: return v
            ats = set()
            x = v
            st = [v]; seen = set()
            while st:
                y = st.pop()
                if y in seen: continue
                seen.add(y)
                if y.op == 'case':
                    ats.add(y.a[0]); st.extend([c for _, c in y.a[1]])
                    if y.a[2] is not None: st.append(y.a[2])
                else: ats.add(y)
            for a in u:
                if a in ats:
                    if v is a: 
                        l = val_lit(a, u[a]); v = l if l is not None else v
                        if a.op == 'disc': v = lint(u[a])
                    else: v = restrict(v, a, u[a])
        return v

    def event(s, kind, guard, fr, b, info=()):
        st = [(f.fn['name'], f.fn['cr']) for f in s.stack]
        s.events.append(dict(kind=kind, guard=guard, fn=fr.fn['name'], sp=fr.fn['b'][b]['sp'], stack=st, info=list(info),
                             sps=[x for x in s.call_sps()], binders=tuple(s.binders)))
    def call_sps(s):
        return [f.cursp for f in s.stack if f.cursp]

    # ------------------------------------------------------------ calls
    def call(s, fr, b, t, g, p, m, push):
        fr.cursp = fr.fn['b'][b]['sp']
        _, fo, ao, dest, tgt = t
        args = [s.operand(fr, m, a) for a in ao]
        argt = [s.op_ty(fr, a) for a in ao]
        if any(a is BOT for a in args): return
        fty = s.p.types[s.op_ty(fr, fo)]
        dcur, dty = s.resolve(fr, m, dest)
        if fty['k'] == 'fndef':
            r, m2, p2 = s.do_call(fty['c'], args, argt, m, p, dty, (fr, b))
        else:
            fv_ = s.operand(fr, m, fo)
            r, m2, p2 = s.apply(fv_, args, m, p, (fr, b), dty)
        if r is BOT or tgt < 0 or p2 is FALSE: return
        dcur, dty = s.resolve(fr, m2, dest)
        s.store(dcur, m2, r)
        push(tgt, g, p2, m2)

    def apply(s, f, args, mem, p, site, dty=None):
        """call a function value"""
        f = s.deref(f, mem)
        if f.op == 'adt' and f.a[0].startswith('closure:'):
            fn = s.p.fns.get(f.a[0][8:])
            if fn is None: return mk('call', 'closure?', *args), mem, p
            if len(s.stack) > s.limit: return mk('call', 'deep', *args), mem, p
            env = f
            # a by-reference environment of a closure that is mutated in place
            r, m2, g = s.call_body(fn, [env] + list(args), mem, p)
            return r, m2, b_and(p, g)
        if f.op == 'fn':
            c = s.p.types[f.a[0]]['c']
            return s.do_call(c, list(args), [None] * len(args), mem, p, dty, site)
        if f.op == 'case':
            lv = leaves(f)
            if all(l.op in ('fn', 'adt') for l, _ in lv):
                outs = []
                for l, g in lv:
                    r, m2, p2 = s.apply(l, args, mem, b_and(p, g), site, dty)
                    m2 = dict(m2); m2[('r', 0)] = r
                    if r is not BOT: outs.append((g, p2, m2))
                if not outs: return BOT, mem, FALSE
                g, p2, m2 = s.merge(outs)
                r = m2.pop(('r', 0))
                return r, m2, p2
        return mk('call', 'apply', f, *[s.deref_all(a, mem) for a in args]), mem, p

    def do_call(s, c, args, argt, mem, p, dty, site):
        from . import leafs
        if c['ctor'] >= 0:
            nm = s.tyname(c['cty'])
            return adt(nm, c['ctor'], *args), mem, p
        d = c['d']
        if d in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            f = args[0]
            a = args[1]
            n = None
            if a.op == 'adt' and a.a[0] == '()': al = list(a.a[2:])
            elif a is UNIT: al = []
            else:
                al = [fld(a, 0, i) for i in range(8)]
                fd = s.deref(f, mem)
                if fd.op == 'adt' and fd.a[0].startswith('closure:') and s.p.fns.get(fd.a[0][8:]):
                    al = al[:s.p.fns[fd.a[0][8:]]['argc'] - 1]
                else: al = al[:1]
            return s.apply(f, al, mem, p, site, dty)
        fn = s.p.fns.get(c['k'])
        h = leafs.lookup(c, fn)
        if h is not None:
            r = h(s, c, args, mem, p, dty, site)
            if r is not NotImplemented:
                return r
        if c['kind'] in ('fnptr_shim',):
            # calling a fn item through Fn* traits
            return s.apply(args[0], list(args[1].a[2:]) if args[1].op == 'adt' else [], mem, p, site, dty)
        if fn is not None and not s.opaque(fn) and len(s.stack) < s.limit:
            if not any(f.fn['key'] == c['k'] for f in s.stack):
                r, m2, g = s.call_body(fn, args, mem, p)
                return r, m2, b_and(p, g)
            s.notes.append('recursion ' + fn['name'])
        return s.opaque_call(c, fn, args, argt, mem, p, dty)

    def opaque_call(s, c, fn, args, argt, mem, p, dty):
        proj = fn is not None and fn['cr'].startswith('svd') or c['cr'].startswith('svd')
        ti = fn['ti'] if fn is not None else ''
        nm = ti if proj and ti else (c['d'] if proj and c.get('tr') else c['n'])
        tys = [s.tstr(x) for x in c['a'] if s.p.types[x]['k'] not in ('closure', 'fndef')]
        name = ('' if proj else 'ext:') + nm + (('[' + ','.join(tys) + ']') if tys else '')
        mem = dict(mem)
        vals = [s.deref_all(a, mem) for a in args]
        given = s.summ[fn['key']](vals) if fn is not None and fn['key'] in s.summ else {}
        for i, a in enumerate(args):
            if a.op == 'mref':
                nv = given[i] if i in given else mk('call', name + '!mut%d' % i, *vals)
                s.store(('root', a.a[0], a.a[1]), mem, nv)
            elif a.op == 'case' and any(l.op == 'mref' for l, _ in leaves(a)):
                # each place it may refer to, with the current value of that place
                ls = [(l, g) for l, g in leaves(a) if l.op == 'mref']
                nvs = []
                for l, g in ls:
                    vs = list(vals); vs[i] = s.deref_all(l, mem)
                    gi = s.summ[fn['key']](vs) if fn is not None and fn['key'] in s.summ else {}
                    nvs.append(gi[i] if i in gi else mk('call', name + '!mut%d' % i, *vs))
                s.store(('alts', [(g, ('root', l.a[0], l.a[1])) for l, g in ls]), mem, nvs)
        if 'ret' in given:
            s.trace_calls.append((name, c['k'], vals, p, tuple(f.fn['name'] for f in s.stack), tuple(s.call_sps())))
            return given['ret'], mem, p
        r = lift(lambda *xs: mk('call', name, *xs), vals) if all(x.op != 'case' for x in vals) else mk('call', name, *vals)
        if dty is not None and s.p.types[dty]['k'] == 'bool': r = atom_bool(r)
        if dty is not None and s.p.types[dty]['k'] == 'never': 
            return BOT, mem, FALSE
        s.trace_calls.append((name, c['k'], vals, p, tuple(f.fn['name'] for f in s.stack), tuple(s.call_sps())))
        return r, mem, p

    # ------------------------------------------------------------ lists / loops
    def index(s, v, i):
        def f(l, ii):
            if ii.op == 'lit' and l.op == 'list':
                n = ii.a[1]
                if all(x.op == 'item' for x in l.a[:n + 1]) and len(l.a) > n: return l.a[n].a[0]
            if ii.op == 'ix' and ii.a[0] is l: return elem(l, ii.a[1])
            if ii.op == 'ix' and l.op == 'list' and len(l.a) == 1 and l.a[0].op == 'for' and l.a[0].a[0] is ii.a[0] and len(l.a[0].a) == 3 and l.a[0].a[2].op == 'item':
                return subst(l.a[0].a[2].a[0], {elem(l.a[0].a[0], l.a[0].a[1]): elem(ii.a[0], ii.a[1])})
            if ii.op == 'lit' and l.op in ('call', 'fld', 'sym', 'elem') and isinstance(ii.a[1], int) and ii.a[1] < 64:
                from . import leafs   # the element at that place, as an iterator finds it
                X = leafs.skip(s, l, ii)
                while X.op == 'call' and X.a[0] == 'init' and X.a[1].op != 'list': X = X.a[1]
                if X.op != 'case': return fld(s.first(X, s.depth_for(X), TRUE), 1, 0)
            return mk('call', 'index', l, ii)
        return lift(f, (v, i))
    def length(s, v): return length(v)

    def depth_for(s, L):
        return 1 + max([d for (x, d) in s.binders if x is L], default=0)

    def nonempty(s, l):
        """guard: list has an element"""
        def f(v):
            while v.op == 'call' and v.a[0] in ('sort', 'usort', 'rev'):
                v = v.a[1]
            if v.op == 'case': return s.nonempty(v)
            if v.op != 'list':
                return b_not(guard_eq(mk('call', 'len', v), 0))
            g = FALSE
            for sg in v.a: g = b_or(g, s.seg_nonempty(sg))
            return g
        return lift1(f, l)
    def seg_nonempty(s, sg):
        if sg.op == 'item': return TRUE
        if sg.op == 'spl': return s.nonempty(sg.a[0])
        if sg.op == 'if':
            g = FALSE
            for x in sg.a[1:]: g = b_or(g, s.seg_nonempty(x))
            return b_and(sg.a[0], g)
        if sg.op == 'for':
            L, d = sg.a[0], sg.a[1]
            g = FALSE
            for x in sg.a[2:]: g = b_or(g, s.seg_nonempty(x))
            return s.exists(L, d, g)
        raise Unsupported('seg')
    def exists(s, L, d, g):
        if g is FALSE: return FALSE
        F = s.first(L, d, g)
        return guard_eq(disc(F, (0, 1)), 1)
    def first(s, L, d, g):
        return norm_first(L, d, g)
    def head(s, l):
        """first element of a list as an Option"""
        def f(v):
            return s.head_segs(segs_of(v))
        return lift1(f, l)
    def head_segs(s, segs):
        if not segs: return NONE()
        sg = segs[0]; rest = segs[1:]
        if sg.op == 'item': return SOME(sg.a[0])
        if sg.op == 'spl':
            X = sg.a[0]
            if X.op == 'call' and X.a[0] == 'init' and X.a[1].op != 'list':   # its first element is that of the whole
                Y = X.a[1]
                while Y.op == 'call' and Y.a[0] == 'init' and Y.a[1].op != 'list': Y = Y.a[1]
                return ite(s.nonempty(X), SOME(fld(s.first(Y, s.depth_for(Y), TRUE), 1, 0)), s.head_segs(rest))
            d = s.depth_for(X)
            F = s.first(X, d, TRUE)
            return mk_case(disc(F, (0, 1)), {1: SOME(fld(F, 1, 0)), 0: s.head_segs(rest)})
        if sg.op == 'if':
            return ite(sg.a[0], s.head_segs(list(sg.a[1:]) + rest), s.head_segs(rest))
        if sg.op == 'for':
            L, d = sg.a[0], sg.a[1]
            inner = list(sg.a[2:])
            g = FALSE
            for x in inner: g = b_or(g, s.seg_nonempty(x))
            F = s.first(L, d, g)
            h = s.head_segs(inner)
            hv = fld(assume_guard(h, g), 1, 0)
            w = fld(F, 1, 0)
            hv = subst(hv, {elem(L, d): w, mk('ix', L, d): mk('call', 'ixof', F)}) if elem(L, d).op != 'ix' else subst(hv, {elem(L, d): w})
            return mk_case(disc(F, (0, 1)), {1: SOME(hv), 0: s.head_segs(rest)})
        raise Unsupported('seg')

    def iter_segs(s, segs, mem, p, step, left=None):
        """run `step(mem, x, p)` for each element; returns (guard_alive, p, mem, exits)"""
        alive = TRUE
        exits = []
        for i, sg in enumerate(segs):
            if alive is FALSE: break
            if sg.op in ('for', 'spl') and sg.a[0].op == 'case':
                # the elements of one list or another: a loop over each
                alt = []
                for lf, g in leaves(sg.a[0]):
                    if lf.op == 'call' and lf.a[0] == 'bot' or lf is EMPTYL: continue
                    if sg.op == 'spl': alt.append(seg_if(g, segs_of(lf)))
                    else:
                        m = {elem(sg.a[0], sg.a[1]): elem(lf, sg.a[1]), mk('ix', sg.a[0], sg.a[1]): mk('ix', lf, sg.a[1])}
                        alt.append(seg_if(g, [seg_for(lf, sg.a[1], [subst(x, m) for x in sg.a[2:]])]))
                ga, p2, mem, ex = s.iter_segs(alt, mem, p, step)
                for (g, q, tgt, mm) in ex: exits.append((b_and(alive, g), q, tgt, mm))
                alive = b_and(alive, ga); p = p2
            elif sg.op == 'item':
                ga, p2, m2, ex = step(mem, sg.a[0], p)
                if left is not None: ex = [(g, q, tgt, left(mm, segs[i + 1:])) for (g, q, tgt, mm) in ex]
                for (g, q, tgt, mm) in ex: exits.append((b_and(alive, g), q, tgt, mm))
                alive = b_and(alive, ga)
                mem = m2; p = p2
                if alive is FALSE or p2 is FALSE: alive = FALSE; break
            elif sg.op == 'if':
                g0 = s.known(sg.a[0], p)
                if g0 is FALSE: continue
                ga, p2, m2, ex = s.iter_segs(list(sg.a[1:]), mem, b_and(p, g0), step)
                for (g, q, tgt, mm) in ex: exits.append((b_and(alive, b_and(g0, g)), q, tgt, mm))
                if g0 is TRUE:
                    mem = m2; p = p2; alive = b_and(alive, ga); continue
                _, p3, mem = s.merge([(b_and(g0, ga), p2, m2), (b_not(g0), b_and(p, b_not(g0)), mem)])
                alive = b_and(alive, b_or(b_not(g0), ga))
                p = p3
            elif sg.op == 'for':
                ga, p2, mem, ex = s.summarize(sg.a[0], sg.a[1], list(sg.a[2:]), mem, p, step)
                for (g, q, tgt, mm) in ex: exits.append((b_and(alive, g), q, tgt, mm))
                alive = b_and(alive, ga); p = p2
            elif sg.op == 'spl':
                X = sg.a[0]
                d = s.depth_for(X)
                ga, p2, mem, ex = s.summarize(X, d, [item(elem(X, d))], mem, p, step)
                for (g, q, tgt, mm) in ex: exits.append((b_and(alive, g), q, tgt, mm))
                alive = b_and(alive, ga); p = p2
            else: raise Unsupported('iter ' + sg.op)
        return alive, p, mem, exits

    def is_struct(s, v):
        t = s.p.adt_by_name.get(v.a[0])
        return t is not None and len(t['v']) == 1 and len(v.a) - 2 == len(t['v'][0]['f'])
    def put(s, mem, root, path, v):
        if not path: mem[root] = v
        else: s.store(('root', root, path), mem, v)

    def diff(s, v0, v1, path=(), split=True):
        if v0 is v1: return []
        if v0.op == 'adt' and v1.op == 'adt' and v0.a[:2] == v1.a[:2] and len(v0.a) == len(v1.a):
            r = []
            for i in range(2, len(v0.a)):
                r += s.diff(v0.a[i], v1.a[i], path + (('f', v0.a[1], i - 2),), split)
            return r
        if split and v1.op == 'adt' and (v0.op in ('sym', 'fld', 'elem', 'call', 'lv') or v0.op == 'case' and all(x.op in ('sym', 'fld', 'elem', 'call', 'lv') or x.op == 'adt' and x.a[0] == v1.a[0] for x, _ in leaves(v0))) and s.is_struct(v1):
            # a struct seen as a whole before and by fields after
            r = []
            for i in range(2, len(v1.a)):
                r += s.diff(fld(v0, v1.a[1], i - 2), v1.a[i], path + (('f', v1.a[1], i - 2),), split)
            return r
        if split and v1.op == 'case':
            # by cases: fields on some ways, the whole unchanged on others
            ls = [x for x, _ in leaves(v1)]
            ad = [x for x in ls if x.op == 'adt']
            if ad and all((x.op == 'adt' and x.a[0] == ad[0].a[0] and s.is_struct(x)) or x is v0 or x.op == 'call' and x.a[0] == 'fupd' for x in ls):
                n, k = ad[0].a[1], len(ad[0].a) - 2
                r = []
                for i in range(k): r += s.diff(fld(v0, n, i), fld(v1, n, i), path + (('f', n, i),), split)
                return r
        if split and v0.op != 'adt':
            # fields of an otherwise unchanged whole
            at = set(); ok = True; b0 = None
            for x, _ in leaves(v0) + leaves(v1):
                while x.op == 'call' and x.a[0] == 'fupd':
                    at.add((x.a[3].a[1], x.a[2].a[1])); x = x.a[1]
                if b0 is None: b0 = x
                if x is not b0: ok = False; break
            if ok and at and len({n for n, _ in at}) == 1:
                r = []
                for n, i in sorted(at): r += s.diff(fld(v0, n, i), fld(v1, n, i), path + (('f', n, i),), split)
                return r
        return [path]

    def narrow(s, v, like, p):
        """v as the variant it has on this path, if that is the one of `like`"""
        w = assume_guard(v, p)
        if w.op in ('sym', 'fld', 'elem', 'call') and units(p).get(mk('disc', w)) == like.a[1]:
            w = mk('adt', like.a[0], like.a[1], *[fld(w, like.a[1], i) for i in range(len(like.a) - 2)])
        return w if w.op == 'adt' and w.a[:2] == like.a[:2] else None
    def summarize(s, L, d, inner, mem, p, step, live=None):
        carried = {}     # (root, path) -> lv term
        order = []
        special = {}
        ev0, tr0, nt0 = len(s.events), len(s.trace_calls), len(s.notes)
        d0 = s.depth_for(L)
        if d0 > d:       # binder already open at this depth: rename
            m = {elem(L, d): elem(L, d0), mk('ix', L, d): mk('ix', L, d0)}
            inner = [subst(x, m) for x in inner]
            d = d0
        for rnd in range(12):
            del s.events[ev0:]; del s.trace_calls[tr0:]; del s.notes[nt0:]
            m0 = dict(mem)
            for (root, path), lv in carried.items():
                s.put(m0, root, path, special.get((root, path), lv))
            s.binders.append((L, d))
            try:
                alive, p1, m1, exits = s.iter_segs(inner, m0, p, step)
            finally:
                s.binders.pop()
            new = []; again0 = False
            if alive is not FALSE:
                for root, v0 in m0.items():
                    v1 = m1.get(root)
                    if v1 is None or v1 is v0: continue
                    if v1.op in ('adt', 'case') and v0.op != 'adt' and not carried and mem[root] is v0:
                        w1 = v1 if v1.op == 'adt' else assume_guard(v1, p)
                        n0 = s.narrow(v0, w1, p) if w1.op == 'adt' else None
                        if n0 is not None:
                            mem = dict(mem); mem[root] = n0; again0 = True; continue
                    for path in s.diff(v0, v1):
                        if (root, path) not in carried:
                            new.append((root, path))
            if again0: continue
            if new:
                for rp in new:
                    # drop carried sub-paths
                    for q in list(carried):
                        if q[0] == rp[0] and (q[1][:len(rp[1])] == rp[1] or rp[1][:len(q[1])] == q[1]):
                            del carried[q]; order.remove(q); special.pop(q, None)
                    carried[rp] = mk('lv', L, d, len(order) + 10 * rnd)
                    order.append(rp)
                # canonical numbering
                for i, rp in enumerate(order): carried[rp] = mk('lv', L, d, i)
                special = {}
                continue
            # induction variables
            again = False
            if alive is not FALSE:
                for rp in order:
                    if rp in special: continue
                    nv = s.read_path(m1[rp[0]], rp[1])
                    lv = carried[rp]
                    if nv.op == 'add' or lv.op == 'lv':
                        dl = sub(nv, lv) if nv.op == 'add' else None
                        if dl is not None and dl.op == 'lit':
                            v0 = s.read_path(mem[rp[0]], rp[1])
                            special[rp] = add(v0, scale(mk('ix', L, d), dl.a[1]))
                            again = True
            if again: continue
            break
        else:
            raise Unsupported('loop summary does not stabilise')
        # exits
        gX = FALSE
        for (g, q, tgt, mm) in exits: gX = b_or(gX, g)
        notX = b_not(gX)
        lvs = set(carried.values())
        def has_lv(t):
            st = [t]; seen = set()
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x.op == 'lv' and x in lvs: return True
                st.extend(children(x))
            return False
        out_exits = []
        contg = TRUE
        out = dict(mem)
        finals = {}
        if alive is not FALSE:
            nvs = {rp: assume_guard(s.read_path(m1[rp[0]], rp[1]), notX) for rp in order}
        else:
            nvs = {rp: carried[rp] for rp in order}
        for rp in order:
            v0 = s.read_path(mem[rp[0]], rp[1])
            if alive is FALSE: finals[rp] = v0; continue
            finals[rp] = s.classify(L, d, v0, carried[rp], nvs[rp], special.get(rp), order, carried, nvs, mem, has_lv, gX, p)
        for rp in order:
            root, path = rp
            s.put(out, root, path, finals[rp])
        if gX is not FALSE:
            if has_lv(gX):
                js = tuple((s.read_path(mem[r[0]], r[1]), carried[r], nvs[r]) for r in order)
                F = mk('loopx', L, d, gX, js)
            else:
                F = s.first(L, d, gX)
            hit = guard_eq(disc(F, (0, 1)), 1)
            w = fld(F, 1, 0)
            sub_m = {elem(L, d): w}
            if elem(L, d).op != 'ix': sub_m[mk('ix', L, d)] = mk('call', 'ixof', F)
            contg = b_not(hit)
            many = len({(tgt) for _, _, tgt, _ in exits}) > 1 or len(exits) > 1
            groups = {}
            for (g, q, tgt, mm) in exits: groups.setdefault(tgt, []).append((g, q, mm))
            lvsub = {}
            for rp in order:
                lv = carried[rp]
                v0 = s.read_path(mem[rp[0]], rp[1])
                if rp in special: lvsub[lv] = special[rp]
                else: lvsub[lv] = mk('call', 'partial', finals[rp], F)
            for tgt, lst in groups.items():
                gt, qt, mt = s.merge(lst) if len(lst) > 1 else lst[0]
                mo = dict(mem)
                u = units(gt)
                for root, v in mt.items():
                    if root in mem and mem[root] is v: continue
                    v2 = v
                    if u: v2 = assume_all(v2, u)
                    if has_lv(v2): v2 = subst(v2, lvsub)
                    v2 = subst(v2, sub_m)
                    mo[root] = v2
                if len(groups) > 1:
                    gg = gt
                    if has_lv(gg): gg = subst(gg, lvsub)
                    gg = b_and(hit, assume_facts(subst(gg, sub_m), gX, sub_m))
                else: gg = hit
                out_exits.append((gg, b_and(p, gg), tgt, mo))
        if alive is FALSE and False:
            contg = FALSE
        p2 = b_and(p, contg)
        return contg, p2, out, out_exits

    def classify(s, L, d, v0, lv, nv, special, order, carried, nvs, mem, has_lv, gX, p=TRUE):
        if special is not None:
            if not has_lv(nv):
                dl = sub(nv, special)
                if dl.op == 'lit':
                    return add(v0, scale(s.length(L), dl.a[1]))
        if nv is lv: return v0
        if nv.op == 'list':
            nv = factor(nv, lv)
        # append to a list
        if nv.op == 'list' and nv.a and nv.a[0] is mk('spl', lv):
            rest = list(nv.a[1:])
            if not any(has_lv(x) for x in rest):
                return mk_list(segs_of(v0) + [seg_for(L, d, rest)])
        # put before a list
        if nv.op == 'list' and nv.a and nv.a[-1] is mk('spl', lv):
            rest = list(nv.a[:-1])
            if not any(has_lv(x) for x in rest):
                from .leafs import rev
                return mk_list(segs_of(rev(s, mk_list([seg_for(L, d, segs_of(rev(s, mk_list(rest))))]))) + segs_of(v0))
        # put before it for some elements, behind it for others
        if nv.op == 'list' and sum(x is mk('spl', lv) for x in nv.a) == 1:
            k = nv.a.index(mk('spl', lv)); pre, post = list(nv.a[:k]), list(nv.a[k + 1:])
            if not any(has_lv(x) for x in pre + post):
                from .leafs import rev
                return mk_list(segs_of(rev(s, mk_list([seg_for(L, d, segs_of(rev(s, mk_list(pre))))]))) + segs_of(v0) + [seg_for(L, d, post)])
        # string append
        if nv.op == 'call' and nv.a[0] == 'cat' and nv.a[1] is lv and not any(has_lv(x) for x in nv.a[2:]):
            return cat(v0, mk('call', 'concat', mk_list([seg_for(L, d, [item(cat(*nv.a[2:]))])])))
        # in-place element update
        if nv.op == 'call' and nv.a[0] == 'lupd' and nv.a[1] is lv:
            r = s.map_elem(v0, nv.a[2], nv.a[3], L, d)
            if r is not None and not has_lv(nv.a[3]): return r
        # accumulation of bits: every path ors terms into the accumulator
        acc = s.or_parts(nv, lv, has_lv)
        if acc is not None:
            return _nbitor(v0, _nbitorall(mk_list([seg_for(L, d, acc)])))
        if nv.op == 'case':
            l2 = leaves(nv)
            # guarded element update
            if all(x is lv or (x.op == 'call' and x.a[0] == 'lupd' and x.a[1] is lv) for x, _ in l2):
                ts = {x.a[2] for x, _ in l2 if x is not lv}
                if len(ts) == 1:
                    t = ts.pop()
                    nx = t
                    for x, g in l2:
                        if x is not lv: nx = ite(g, x.a[3], nx)
                    if not has_lv(nx):
                        r = s.map_elem(v0, t, nx, L, d)
                        if r is not None: return r
            # flag / last assignment
            if all(x is lv or not (has_lv(x)) for x, _ in l2):
                g = FALSE; val = None; okc = True
                for x, gg in l2:
                    if x is lv: continue
                    if (L.id, d) in fv(x) or has_lv(gg): okc = False
                    if val is None: val = x
                    elif val is not x: okc = False
                    g = b_or(g, gg)
                if okc and val is not None:
                    return ite(s.exists(L, d, g), val, v0)
                # the last element for which it is assigned
                if not has_lv(g) and gX is FALSE:
                    from .leafs import opt_last
                    l = mk_list([seg_for(L, d, [seg_if(gg, [item(x)]) for x, gg in l2 if x is not lv])])
                    return ite(s.exists(L, d, g), fld(opt_last(l), 1, 0), v0)
        elif not has_lv(nv):
            if (L.id, d) not in fv(nv):
                return ite(s.exists(L, d, TRUE), nv, v0)
        if p is not TRUE:
            n2 = assume_guard(nv, p)
            if n2 is not nv: return s.classify(L, d, v0, lv, n2, special, order, carried, nvs, mem, has_lv, gX)
        js = tuple((s.read_path(mem[r[0]], r[1]), carried[r], nvs[r]) for r in order if r_used(carried[r], nv, nvs, carried, order))
        idx = [c for _, c, _ in js].index(lv) if any(c is lv for _, c, _ in js) else 0
        # canonical numbering of the loop variables
        ren = {c: mk('lv', L, d, 'k%d' % i) for i, (_, c, _) in enumerate(js)}
        js = tuple((a, ren[c], subst(n, ren)) for a, c, n in js)
        return mk('fold', L, d, js, idx, gX if not has_lv(gX) else TRUE)

    def or_parts(s, nv, lv, has_lv):
        """segments or-ed into accumulator lv by the new value nv (None: not of that form)"""
        ls = leaves(nv) if nv.op == 'case' else [(nv, TRUE)]
        out = []; some = False
        for x, g in ls:
            if has_lv(g): return None
            if x is lv or x is BOT: continue
            parts = []; st = [x]; n = 0
            while st:
                y = st.pop()
                if y.op == 'call' and y.a[0] == 'bitor': st += [y.a[2], y.a[1]]
                elif y is lv: n += 1
                else: parts.append(y)
            if n != 1 or any(has_lv(y) for y in parts): return None
            some = True
            out.append(seg_if(g, [item(y) for y in parts]))
        return out if some else None

    def map_elem(s, v0, t, nx, L, d):
        """list v0 with every element t (the generic element of the loop) := nx"""
        if v0 is L: 
            return mk_list([seg_for(L, d, [item(nx)])])
        if v0.op == 'list':
            hit = [0]
            def go(sg, open_):
                if sg.op == 'item':
                    if sg.a[0] is t and open_: hit[0] += 1; return item(nx)
                    return sg
                if sg.op == 'if': return seg_if(sg.a[0], [go(x, open_) for x in sg.a[1:]])
                if sg.op == 'for' and sg.a[0] is L and sg.a[1] == d:
                    return seg_for(L, d, [go(x, True) for x in sg.a[2:]])
                if sg.op == 'spl' and sg.a[0] is L and t is elem(L, d):
                    hit[0] += 1
                    return seg_for(L, d, [item(nx)])
                return sg
            r = mk_list([go(x, False) for x in v0.a])
            if hit[0] == 1: return r
        return None

    def loop(s, fr, header, mem, p):
        """summarise the natural loop at `header`; returns {target: [(g,p,mem)]}"""
        cfg = s.p.cfg(fr.fn['key'])
        live = cfg.live_in(header)
        entry = {k: v for k, v in mem.items() if k[0] != fr.id or k[1] in live}
        # locate the iterator driving the loop
        probe = {'roots': set(entry), 'hit': [], 'depth': len(s.stack)}
        s.loop_probe.append(probe)
        ev0, tr0, nt0 = len(s.events), len(s.trace_calls), len(s.notes)
        try:
            s.region(fr, header, header, dict(entry), TRUE, p)
        finally:
            s.loop_probe.pop()
        del s.events[ev0:]; del s.trace_calls[tr0:]; del s.notes[nt0:]
        hits = []
        for h in probe['hit']:
            if h not in hits: hits.append(h)
        if hits:
            r = s.loop_over(fr, header, entry, p, hits[0])
            if r is not None: return r
        return s.loop_generic(fr, header, entry, p)

    def loop_over(s, fr, header, entry, p, itp):
        root, path = itp
        L0 = s.read_path(entry[root], path)
        def step(m, x, q):
            m = dict(m)
            m[root] = s.write_path(m[root], path, mk('iterone', x)) if path else mk('iterone', x)
            outs = s.region(fr, header, header, m, TRUE, q)
            ex = []
            cont = outs.pop(header, None)
            for tgt, lst in outs.items():
                for (g, q2, mm) in lst:
                    mm = dict(mm)
                    mm[root] = s.write_path(mm[root], path, mk('iterpart')) if path else mk('iterpart')
                    ex.append((g, q2, tgt, mm))
            if not cont: return FALSE, FALSE, m, ex
            g, q2, m2 = s.merge(cont)
            st = s.read_path(m2[root], path)
            if st.op != 'iterdone': raise NotForLoop()
            m2 = dict(m2)
            m2[root] = s.write_path(m2[root], path, mk('iterdone')) if path else mk('iterdone')
            m2 = {k: v for k, v in m2.items() if k in entry or k[0] != fr.id}
            return g, q2, m2, ex
        e0 = dict(entry)
        e0[root] = s.write_path(e0[root], path, mk('iterdone')) if path else mk('iterdone')
        ev0, tr0, nt0 = len(s.events), len(s.trace_calls), len(s.notes)
        try:
            def left(mm, rest):
                # leaving the loop at an element of its own: the iterator still has the ones behind it
                mm = dict(mm)
                mm[root] = s.write_path(mm[root], path, mk_list(rest)) if path else mk_list(rest)
                return mm
            alive, p2, m2, exits = s.iter_segs(s.list_segs(L0, entry), e0, p, step, left)
        except NotForLoop:
            del s.events[ev0:]; del s.trace_calls[tr0:]; del s.notes[nt0:]
            return None
        res = {}
        for (g, q, tgt, mm) in exits:
            res.setdefault(tgt, []).append((g, q, mm))
        if alive is not FALSE:
            m2 = dict(m2)
            m2[root] = s.write_path(m2[root], path, mk('iternone')) if path else mk('iternone')
            outs = s.region(fr, header, header, m2, TRUE, p2)
            for tgt, lst in outs.items():
                for (g, q, mm) in lst:
                    if tgt == header: return None
                    mm = dict(mm)
                    mm[root] = s.write_path(mm[root], path, EMPTYL) if path else EMPTYL
                    res.setdefault(tgt, []).append((b_and(alive, g), q, mm))
        return res

    def loop_generic(s, fr, header, entry, p):
        carried = {}; order = []
        lid = mk('sym', 'loop%d' % len([1 for x in s.binders if x[0].op == 'sym']))
        for rnd in range(10):
            ev0, tr0, nt0 = len(s.events), len(s.trace_calls), len(s.notes)
            m0 = dict(entry)
            for (root, path), lv in carried.items():
                m0[root] = s.write_path(m0[root], path, lv) if path else lv
            s.binders.append((lid, 1))
            try:
                outs = s.region(fr, header, header, m0, TRUE, p)
            finally: s.binders.pop()
            back = outs.get(header)
            new = []
            if back:
                g, q, m1 = s.merge(back)
                for root, v0 in m0.items():
                    v1 = m1.get(root)
                    if v1 is None or v1 is v0: continue
                    for path in s.diff(v0, v1, (), False):
                        if (root, path) not in carried: new.append((root, path))
            if not new: break
            del s.events[ev0:]; del s.trace_calls[tr0:]; del s.notes[nt0:]
            for rp in new:
                for qq in list(carried):
                    if qq[0] == rp[0] and (qq[1][:len(rp[1])] == rp[1] or rp[1][:len(qq[1])] == qq[1]):
                        del carried[qq]; order.remove(qq)
                carried[rp] = None; order.append(rp)
            for i, rp in enumerate(order): carried[rp] = mk('lv', lid, 1, i)
        else:
            raise Unsupported('generic loop')
        res = {}
        exits = [(t, g, q, mm) for t, l in outs.items() if t != header for (g, q, mm) in l]
        if back:
            sig = tuple((s.read_path(entry[r], pth), carried[(r, pth)], s.read_path(m1[r], pth)) for r, pth in order)
        else: sig = ()
        many = len(exits) > 1
        for i, (t, g, q, mm) in enumerate(exits):
            mo = {}
            for root, v in mm.items():
                if root in entry and entry[root] is v and root not in {r for r, _ in carried}:
                    mo[root] = v
                elif any(True for x in walk(v) if x.op == 'lv' and x.a[0] is lid):
                    mo[root] = mk('call', 'loopout', mk('loopsig', sig, g), v) if v.op != 'adt' else wrap_fields(v, sig, g, lid)
                else: mo[root] = v
            gg = TRUE
            if many:
                gg = atom_bool(mk('call', 'loopexit', mk('loopsig', sig, g), lint(i)))
                if i == len(exits) - 1:
                    gg = TRUE
                    for j in range(i):
                        gg = b_and(gg, b_not(atom_bool(mk('call', 'loopexit', mk('loopsig', sig, exits[j][1]), lint(j)))))
                else:
                    for j in range(i):
                        gg = b_and(gg, b_not(atom_bool(mk('call', 'loopexit', mk('loopsig', sig, exits[j][1]), lint(j)))))
            res.setdefault(t, []).append((gg, b_and(p, gg), mo))
        return res

    def list_segs(s, v, mem):
        from . import leafs
        v = s.deref(v, mem)
        return segs_of(leafs.as_list(s, v))

    def lmap(s, l, f, mem, p, site):
        """map closure f over a list/iterator; f(mem, x, p) -> (list of segs, mem, p)"""
        s.nheap += 1
        acc = ('h', s.nheap)
        mem = dict(mem); mem[acc] = EMPTYL
        def step(m, x, q):
            sg, m2, q2 = f(m, x, q)
            if q2 is FALSE: return FALSE, FALSE, m2, []
            m2 = dict(m2)
            m2[acc] = mk_list(segs_of(m2[acc]) + list(sg))
            return TRUE, q2, m2, []
        alive, p2, m2, ex = s.iter_segs(s.list_segs(l, mem), mem, p, step)
        m2 = dict(m2)
        r = m2.pop(acc)
        return r, m2, p2

class NotForLoop(Exception): pass

def factor(nv, lv):
    """a list each of whose paths begins (or each of whose paths ends) with the splice of lv, as that splice followed (preceded) by the rest"""
    L = mk('spl', lv)
    if any(x is L for x in nv.a): return nv
    def strip(segs, g, st):
        out = []
        for x in segs:
            if x is L:
                if b_and(g, st[0]) is not FALSE or b_and(g, st[1]) is not FALSE: return None
                st[0] = b_or(st[0], g)
            elif x.op == 'if' and any(y is L for y in walk(x)):
                body = strip(x.a[1:] if not st[2] else x.a[:0:-1], b_and(g, x.a[0]), st)
                if body is None: return None
                if body: out.append(seg_if(x.a[0], body if not st[2] else body[::-1]))
            else:
                st[1] = b_or(st[1], g)
                out.append(x)
        return out
    for back in (False, True):
        st = [FALSE, FALSE, back]
        r = strip(nv.a if not back else nv.a[::-1], TRUE, st)
        if r is not None and st[0] is TRUE:
            return mk_list([L] + r) if not back else mk_list(r[::-1] + [L])
    # some paths begin, some end with it
    seen = [FALSE]
    def split(segs, g):
        pre, post = [], []
        for x in segs:
            if x is L:
                if b_and(g, seen[0]) is not FALSE: return None
                seen[0] = b_or(seen[0], g)
            elif any(y is L for y in walk(x)):
                r = split(x.a[1:], b_and(g, x.a[0])) if x.op == 'if' else None
                if r is None: return None
                for o, q in zip((pre, post), r):
                    if q: o.append(seg_if(x.a[0], q))
            else:
                if b_and(g, b_not(seen[0])) is not FALSE: pre.append(seg_if(b_not(seen[0]), [x]))
                if b_and(g, seen[0]) is not FALSE: post.append(seg_if(seen[0], [x]))
        return pre, post
    r = split(nv.a, TRUE)
    if r is not None and seen[0] is TRUE: return mk_list(r[0] + [L] + r[1])
    return nv
def wrap_fields(v, sig, g, lid):
    if v.op == 'adt':
        return mk('adt', v.a[0], v.a[1], *[wrap_fields(x, sig, g, lid) for x in v.a[2:]])
    if any(True for x in walk(v) if x.op == 'lv' and x.a[0] is lid):
        return mk('call', 'loopout', mk('loopsig', sig, g), v)
    return v

def walk(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(children(x))

def r_used(lv, nv, nvs, carried, order):
    """is loop variable lv (transitively) needed to compute nv?"""
    need = set()
    st = [nv]
    own = {carried[r]: r for r in order}
    while st:
        t = st.pop()
        for x in walk(t):
            if x.op == 'lv' and x in own and x not in need:
                need.add(x); st.append(nvs[own[x]])
    return lv in need

def restrict(t, atom, v):
    """shallow cofactor (decision levels only)"""
    memo = {}
    def go(x):
        if x is atom:
            l = val_lit(atom, v)
            if atom.op == 'disc': l = lint(v)
            return l if l is not None else x
        if x.op != 'case': return x
        r = memo.get(x)
        if r is None:
            if x.a[0] is atom: r = go(pick(x, atom, v))
            else:
                d = {k: go(c) for k, c in x.a[1]}
                df = go(x.a[2]) if x.a[2] is not None else None
                r = mk_case(x.a[0], d, df)
            memo[x] = r
        return r
    return go(t)

def assume_facts(t, g, m):
    return t

class Frame:
    def __init__(s, i, fn):
        s.id = i; s.fn = fn; s.cursp = None

HEAD[0] = lambda l: _HE.head(l)
_HE = Ev.__new__(Ev); _HE.binders = []
class Summary:
    def __init__(s, ev, fn, params, ret, mem, g, events, notes, calls):
        s.ev = ev; s.fn = fn; s.params = params; s.ret = ev.deref_all(ret, mem); s.mem = mem; s.guard = g
        s.rawret = ret
        s.events = events; s.notes = notes; s.calls = calls
    def out(s, i):
        """final value of &mut parameter i (1-based)"""
        v = s.mem.get(('p', i))
        return s.ev.deref_all(v, s.mem) if v is not None else None
