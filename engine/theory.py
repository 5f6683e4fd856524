"""What a set of facts about uninterpreted operations implies: used to discard
combinations of conditions that cannot occur together."""
from .terms import *

BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'i16': 16, 'i8': 8}

def text_facts(path, x):
    """(known literal prefix, known literal suffix) of text x on this path"""
    pre = suf = ''
    if x.op == 'call' and x.a[0] in ('lower', 'upper'):
        a, b = text_facts(path, x.a[1])
        f = str.lower if x.a[0] == 'lower' else str.upper
        if a.isascii(): pre = f(a)
        if b.isascii(): suf = f(b)
    for at, v in path:
        if v == 1 and at.op == 'call' and at.a[0] in ('starts', 'bstarts', 'ends') and at.a[1] is x and at.a[2].op == 'lit':
            l = at.a[2].a[1]
            l = l if isinstance(l, str) else l.decode('latin1')
            if at.a[0] == 'ends':
                if len(l) > len(suf): suf = l
            elif len(l) > len(pre): pre = l
    return pre, suf
def nb(x): return len(x.encode())
def overlap(a, b):
    """longest overlap of a's end with b's start, in bytes"""
    for k in range(min(len(a), len(b)), 0, -1):
        if a.endswith(b[:k]) : return nb(b[:k])
    return 0
def minlen(path, x):
    pre, suf = text_facts(path, x)
    # shortest text with that prefix and that suffix
    r = nb(pre) + nb(suf) - overlap(pre, suf)
    if pre and suf and (suf in pre): r = min(r, nb(pre))
    if pre and suf and (pre in suf): r = min(r, nb(suf))
    return max(r, nb(pre), nb(suf))

def bounds(path, x, bits):
    """interval of an atom of a polynomial computed in an unsigned type of that many bits"""
    lo, hi = 0, (1 << bits) - 1
    if x.op == 'call':
        if x.a[0] == 'strlen': lo = minlen(path, x.a[1])
        elif x.a[0] in ('clz64', 'ctz64', 'popcount'): hi = 64
        elif x.a[0] in ('clz32', 'ctz32'): hi = 32
        elif x.a[0] in ('len', 'strlen', 'count'): hi = (1 << 63) - 1
        elif x.a[0] == 'pow': lo = 1 if x.a[1].op == 'lit' and x.a[1].a[1] >= 1 else 0
    for at, v in path:
        if at is x:
            if isinstance(v, int): lo = hi = v
            elif isinstance(v, tuple) and v[0] == 'not':
                while lo in v[1]: lo += 1
    return lo, hi

def interval(path, p, bits=64):
    c, d = poly(p)
    lo = hi = c
    for x, k in d.items():
        a, b = bounds(path, x, bits)
        lo += k * a if k > 0 else k * b
        hi += k * b if k > 0 else k * a
    # p is another polynomial, of known sign, plus a constant
    for at, v in path:
        if at.op == 'call' and at.a[0] in ('neg', 'zero') and v in (0, 1):
            q = at.a[1]
            for sgn in (1, -1):
                cc, dd = poly(sub(p, scale(q, sgn)))
                if dd: continue
                # p = sgn*q + cc
                if at.a[0] == 'neg':
                    if sgn == 1:
                        if v == 0: lo = max(lo, cc)
                        else: hi = min(hi, cc - 1)
                    elif v == 0: hi = min(hi, cc)
                    else: lo = max(lo, cc + 1)
                elif v == 1: lo = max(lo, cc); hi = min(hi, cc)
        elif at.op == 'call' and at.a[0] == 'eq' and v == 1:
            cc, dd = poly(sub(p, sub(at.a[1], at.a[2])))
            if not dd: lo = max(lo, cc); hi = min(hi, cc)
            cc, dd = poly(add(p, sub(at.a[1], at.a[2])))
            if not dd: lo = max(lo, cc); hi = min(hi, cc)
    return lo, hi

def contradiction(path):
    """the facts [(atom, value or ('not', values))] cannot all hold"""
    for at, v in path:
        if isinstance(v, str):   # the text is known
            for a2, v2 in path:
                if a2.op == 'call' and a2.a[0] in ('starts', 'ends') and a2.a[1] is at and a2.a[2].op == 'lit' and isinstance(a2.a[2].a[1], str) and v2 in (0, 1):
                    l = a2.a[2].a[1]
                    if (v.startswith(l) if a2.a[0] == 'starts' else v.endswith(l)) != bool(v2): return True
        if at.op != 'call': continue
        n = at.a[0]
        if n.startswith('ovf:') and v == 1:
            bits = BITS.get(n[4:], 64)
            p = at.a[1]
            mn, mx = (-(1 << bits - 1), (1 << bits - 1) - 1) if n[4] == 'i' else (0, (1 << bits) - 1)
            if p.op == 'call' and p.a[0] == 'pow' and p.a[1].op == 'lit' and p.a[1].a[1] >= 1:
                lo, hi = interval(path, p.a[2])
                if hi <= 4096 and p.a[1].a[1] ** hi <= mx: return True
                continue
            lo, hi = interval(path, p, bits)
            if lo >= mn and hi <= mx: return True
        elif n == 'neg':
            lo, hi = interval([x for x in path if x[0] is not at], at.a[1])
            if v == 1 and lo >= 0: return True
            if v == 0 and hi < 0: return True
        elif n in ('starts', 'bstarts', 'ends') and v == 0:
            pre, suf = text_facts(path, at.a[1])
            if at.a[2].op == 'lit' and isinstance(at.a[2].a[1], str):
                if n != 'ends' and pre.startswith(at.a[2].a[1]): return True
                if n == 'ends' and suf.endswith(at.a[2].a[1]): return True
    return lists(path)

def lists(path, depth=0):
    """existence facts about the elements of one list"""
    by = {}; more = []
    for at, v in path:
        if at.op == 'disc' and at.a[0].op == 'first':
            L, d, g = at.a[0].a
            by.setdefault(L, ([], []))[1 if v in (1, ('not', (0,))) else 0].append((d, g))
        elif at.op == 'call' and at.a[0] == 'len':
            by.setdefault(at.a[1], ([], []))[0 if v == 0 else 1].append((None, TRUE))
        elif at.op == 'disc' and at.a[0].op == 'call' and at.a[0].a[0] in ('it:max', 'it:min', 'it:max_by_key', 'it:min_by_key', 'it:max_by', 'it:min_by'):
            # of a list: nothing exactly when it is empty
            L = at.a[0].a[1]
            if L.op == 'list' and len(L.a) == 1 and L.a[0].op == 'for' and len(L.a[0].a) == 3 and L.a[0].a[2].op == 'item': L = L.a[0].a[0]
            by.setdefault(L, ([], []))[0 if v == 0 else 1].append((None, TRUE))
    for L, (none, some) in by.items():
        for d, g in some:
            if d is not None and g.op == 'case':
                # the first such element satisfies the condition
                w = fld(mk('first', L, d, g), 1, 0)
                h = subst(g, {elem(L, d): w})
                for at, v in path:
                    if h.op != 'case': break
                    if isinstance(v, (int, str)): h = assume(h, at, v)
                if h is FALSE: return True
                if h.op == 'case' and depth < 2:
                    have = {at for at, _ in path}
                    more += [(at, v) for at, v in units(h).items() if at.op == 'disc' and at.a[0].op == 'first' and at not in have]
            for d2, h in none:
                if d2 is None: return True
                if d is not None and d != d2: h = subst(h, {elem(L, d2): elem(L, d)})
                g = b_and(g, b_not(h))
                if g is FALSE: return True
    return bool(more) and lists(list(path) + more, depth + 1)
