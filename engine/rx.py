"""Canonical minimal automaton of a regular expression (the subset of the regex
crate's syntax used for whole-name checks), so that two patterns are compared by
the language they accept and not by their text."""
import hashlib, unicodedata

MAXC = 0x10FFFF
class Unsupported(Exception): pass

# char sets: sorted tuples of (lo, hi)
def cs_norm(rs):
    rs = sorted(rs); out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return tuple(out)
def cs_neg(rs):
    out = []; p = 0
    for a, b in cs_norm(rs):
        if a > p: out.append((p, a - 1))
        p = b + 1
    if p <= MAXC: out.append((p, MAXC))
    return tuple(out)
_uc = {}
def uclass(k):
    if k not in _uc:
        f = {'d': lambda c: unicodedata.category(c) == 'Nd', 's': str.isspace,
             'w': lambda c: c.isalnum() or unicodedata.category(c)[0] == 'M' or unicodedata.category(c) in ('Nd', 'Pc', 'Nl')}[k]
        rs = []
        for i in range(MAXC + 1):
            if f(chr(i)): rs.append((i, i))
        _uc[k] = cs_norm(rs)
    return _uc[k]

class Parser:
    def __init__(s, t): s.t = t; s.i = 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else ''
    def nx(s):
        c = s.peek(); s.i += 1
        if not c: raise Unsupported('end')
        return c
    def alt(s):
        xs = [s.seq()]
        while s.peek() == '|': s.nx(); xs.append(s.seq())
        return ('alt', xs) if len(xs) > 1 else xs[0]
    def seq(s):
        xs = []
        while s.peek() not in ('', '|', ')'): xs.append(s.rep())
        return ('seq', xs)
    def rep(s):
        a = s.atom()
        while s.peek() and s.peek() in '*+?{':
            c = s.nx()
            if c == '*': a = ('rep', a, 0, None)
            elif c == '+': a = ('rep', a, 1, None)
            elif c == '?': a = ('rep', a, 0, 1)
            else:
                q = ''
                while s.peek() != '}': q += s.nx()
                s.nx()
                lo, _, hi = q.partition(',')
                lo = int(lo); hi = (int(hi) if hi else None) if ',' in q else lo
                a = ('rep', a, lo, hi)
            if s.peek() == '?': s.nx()      # laziness does not change the language
            elif s.peek() == '+': raise Unsupported('possessive')
        return a
    def atom(s):
        c = s.nx()
        if c == '(':
            if s.peek() == '?':
                s.nx()
                k = s.nx()
                if k == ':': pass
                elif k in 'P<':
                    if k == 'P' and s.nx() != '<': raise Unsupported('group')
                    if s.peek() in '=!': raise Unsupported('look')
                    while s.nx() != '>': pass
                else: raise Unsupported('flags')
            a = s.alt()
            if s.nx() != ')': raise Unsupported('paren')
            return a
        if c == '[': return ('set', s.klass())
        if c == '.': return ('set', cs_neg([(10, 10)]))
        if c == '^': return ('bol',)
        if c == '$': return ('eol',)
        if c == '\\': return s.esc()
        if c in '*+?{': raise Unsupported('dangling ' + c)
        return ('set', ((ord(c), ord(c)),))
    def esc(s):
        c = s.nx()
        if c in 'dsw': return ('set', uclass(c))
        if c in 'DSW': return ('set', cs_neg(uclass(c.lower())))
        if c == 'A': return ('bol',)
        if c == 'z': return ('eol',)
        m = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7}
        if c in m: return ('set', ((m[c], m[c]),))
        if c == 'x' :
            if s.peek() == '{': raise Unsupported('x{')
            v = int(s.nx() + s.nx(), 16); return ('set', ((v, v),))
        if c.isalnum(): raise Unsupported('\\' + c)
        return ('set', ((ord(c), ord(c)),))
    def klass(s):
        neg = False; rs = []
        if s.peek() == '^': s.nx(); neg = True
        first = True
        while True:
            c = s.nx()
            if c == ']' and not first: break
            first = False
            if c == '[':
                if s.peek() != ':': raise Unsupported('nested set')
                n = ''
                s.nx()
                while s.peek() != ':': n += s.nx()
                s.nx(); s.nx()
                A = {'alpha': [(65, 90), (97, 122)], 'digit': [(48, 57)], 'alnum': [(48, 57), (65, 90), (97, 122)], 'upper': [(65, 90)],
                     'lower': [(97, 122)], 'word': [(48, 57), (65, 90), (95, 95), (97, 122)], 'xdigit': [(48, 57), (65, 70), (97, 102)], 'space': [(9, 13), (32, 32)]}
                if n not in A: raise Unsupported('[:%s:]' % n)
                rs += A[n]; continue
            if c == '\\':
                e = s.esc()
                if e[0] != 'set': raise Unsupported('class escape')
                lo = e[1]
                if len(lo) != 1 or lo[0][0] != lo[0][1]: rs += lo; continue
                c = chr(lo[0][0])
            elif c in '&~-' and s.peek() == c: raise Unsupported('set op')
            if s.peek() == '-' and s.i + 1 < len(s.t) and s.t[s.i + 1] != ']':
                s.nx(); d = s.nx()
                if d == '\\':
                    e = s.esc()
                    if e[0] != 'set' or len(e[1]) != 1: raise Unsupported('range')
                    d = chr(e[1][0][0])
                if ord(d) < ord(c): raise Unsupported('range')
                rs.append((ord(c), ord(d)))
            else: rs.append((ord(c), ord(c)))
        r = cs_norm(rs)
        return cs_neg(r) if neg else r

def canon(pattern, flags_search=True):
    """canonical id of the set of whole texts on which Regex::is_match(pattern) is true"""
    p = Parser(pattern)
    ast = p.alt()
    if p.i != len(pattern): raise Unsupported('trailing')
    # NFA with anchors: state, eps edges (with condition), char edges
    eps = []; ch = []
    def new():
        eps.append([]); ch.append([]); return len(eps) - 1
    def build(n, a):
        """from state a, returns the end state"""
        k = n[0]
        if k == 'set': b = new(); ch[a].append((n[1], b)); return b
        if k in ('bol', 'eol'): b = new(); eps[a].append((k, b)); return b
        if k == 'seq':
            for x in n[1]: a = build(x, a)
            return a
        if k == 'alt':
            b = new()
            for x in n[1]:
                q = new(); eps[a].append((None, q)); eps[build(x, q)].append((None, b))
            return b
        if k == 'rep':
            _, x, lo, hi = n
            if (hi or lo) > 200: raise Unsupported('repeat')
            for _ in range(lo): a = build(x, a)
            if hi is None:
                b = new(); c = new()
                eps[a].append((None, b)); e = build(x, b); eps[e].append((None, b)); eps[b].append((None, c)); return c
            end = new(); eps[a].append((None, end))
            for _ in range(hi - lo):
                a = build(x, a); eps[a].append((None, end))
            return end
    ALL = ((0, MAXC),)
    s0 = new(); ch[s0].append((ALL, s0)); st = new(); eps[s0].append((None, st))
    e = build(ast, st)
    acc = new(); eps[e].append((None, acc)); ch[acc].append((ALL, acc))
    # cuts of the alphabet
    cuts = {0, MAXC + 1}
    for es in ch:
        for cs, _ in es:
            for a, b in cs: cuts.add(a); cuts.add(b + 1)
    cuts = sorted(cuts); classes = [(cuts[i], cuts[i + 1] - 1) for i in range(len(cuts) - 1)]
    def closure(ss, bol, eol):
        out = set(ss); w = list(ss)
        while w:
            x = w.pop()
            for c, y in eps[x]:
                if (c is None or (c == 'bol' and bol) or (c == 'eol' and eol)) and y not in out: out.add(y); w.append(y)
        return frozenset(out)
    def has(cs, x): return any(a <= x <= b for a, b in cs)
    # DFA states carry (raw set, at-begin flag)
    init = (frozenset([s0]), True)
    idx = {init: 0}; order = [init]; delta = []; final = []
    i = 0
    while i < len(order):
        ss, bol = order[i]
        final.append(acc in closure(ss, bol, True))
        cl = closure(ss, bol, False)
        row = []
        for lo, hi in classes:
            t = (frozenset(y for x in cl for cs, y in ch[x] if has(cs, lo)), False)
            if t not in idx:
                idx[t] = len(order); order.append(t)
                if len(order) > 5000: raise Unsupported('size')
            row.append(idx[t])
        delta.append(row); i += 1
    # Moore minimisation
    part = [1 if f else 0 for f in final]
    while True:
        sig = {}; np = []
        for q in range(len(order)):
            k = (part[q],) + tuple(part[t] for t in delta[q])
            np.append(sig.setdefault(k, len(sig)))
        if len(set(np)) == len(set(part)): part = np; break
        part = np
    rep = {}
    for q in range(len(order)): rep.setdefault(part[q], q)
    # canonical numbering by BFS; rows as merged intervals
    num = {part[0]: 0}; bfs = [part[0]]; rows = []
    for b in bfs:
        q = rep[b]; row = []
        for (lo, hi), t in zip(classes, delta[q]):
            if part[t] not in num: num[part[t]] = len(bfs); bfs.append(part[t])
            n = num[part[t]]
            if row and row[-1][2] == n: row[-1] = (row[-1][0], hi, n)
            else: row.append((lo, hi, n))
        rows.append((final[q], tuple(row)))
    return hashlib.sha256(repr(rows).encode()).hexdigest()[:12], len(rows)

if __name__ == '__main__':
    a = canon('^(((%s)|(%s)[_A-Za-z]{1}[_A-Za-z0-9]*)|([_A-Za-z]{1}[_A-Za-z0-9]*(\\[%s\\])?)|([_A-Za-z]{1}[_A-Za-z0-9]*(%s)?[_A-Za-z0-9]*))$')
    b = canon(r'^(%s([_A-Za-z][_A-Za-z0-9]*)?|[_A-Za-z][_A-Za-z0-9]*(\[%s\])?|[_A-Za-z][_A-Za-z0-9]*(%s)?[_A-Za-z0-9]*)$')
    c = canon('^[_A-Za-z0-9]*$'); d = canon(r'\A[_A-Za-z0-9]*\z'); e = canon('^[_A-Za-z0-9]+$')
    print(a, b, a == b, c == d, c == e, canon('a') == canon('^.*a'), canon('a')==canon('(?:[^a]*)a'))
