"""Panic freedom: every construct that can panic is shown unreachable from the
conditions that guard it."""
from .data import *
from . import model_build as mb
from engine.theory import *
from engine import theory

KNOWN = {'len', 'starts', 'ends', 'bstarts', 'strlen', 'lower', 'upper', 'trim', 'parse', 'text', 'attr', 'children', 'tagname', 'neg', 'zero', 'eq', 'clz64', 'clz32'}

def paths(g, limit=6000):
    """assignments of atoms under which the guard holds: lists of (atom, value or ('not', values))"""
    n = [0]
    def go(t, acc):
        if t is FALSE or t is BOT: return
        if t is TRUE:
            n[0] += 1
            if n[0] > limit: raise Undecided()
            yield acc; return
        if t.op != 'case':
            yield acc + [(t, 1)]; return
        at = t.a[0]
        for k, x in t.a[1]: yield from go(x, acc + [(at, k)])
        if t.a[2] is not None: yield from go(t.a[2], acc + [(at, ('not', tuple(k for k, _ in t.a[1])))])
    return go(g, [])

def at_boundary(path, x, k):
    """byte position k (a term) of text x is a character boundary inside the text"""
    pre, suf = text_facts(path, x)
    if k.op == 'lit':
        n = k.a[1]
        if n == 0: return True
        ends, m = {0}, 0
        for ch in pre: m += nb(ch); ends.add(m)
        return n in ends
    c, d = poly(k)
    if len(d) == 1:
        (a, q), = d.items()
        if q == 1 and a.op == 'call' and a.a[0] == 'strlen' and a.a[1] is x:
            if c == 0: return True
            ends, m = set(), 0
            for ch in reversed(suf): m += nb(ch); ends.add(-m)
            return c in ends
        # a position found in the text itself
        if q == 1 and c == 0 and a.op == 'fld' and a.a[0].op == 'call' and a.a[0].a[0] in ('find', 'rfind') and a.a[0].a[1] is x: return True
        if q == 1 and a.op == 'fld' and a.a[0].op == 'call' and a.a[0].a[0] in ('find', 'rfind') and a.a[0].a[1] is x and a.a[0].a[2].op == 'lit' and c == nb(a.a[0].a[2].a[1]): return True
    return False

def contradiction(path):
    if theory.contradiction(path): return True
    for at, v in path:
        if at.op == 'disc' and v == 0 and at.a[0].op == 'call' and at.a[0].a[0] == 'getnode':
            # the position in an error of a reader is a node of the document read (decided by the error-location rule)
            d, i = at.a[0].a[1], at.a[0].a[2]
            if any(x.op == 'fld' and x.a[0].op == 'call' and x.a[0].a[0].startswith('svd_parser::Parse::parse') for x in subterms(i)) and any(x is d for x in subterms(i)): return True
    return False
def excluded(e, path):
    """the event's own condition cannot hold on this path"""
    if e['kind'] == 'str-index':
        x, r = e['info']
        b = leafs.slice_bounds(r)
        if b is None: return False
        lo, hi = b
        for x1 in leafset(x):
            if not at_boundary(path, x1, lo): return False
            if hi is not None:
                if not at_boundary(path, x1, hi): return False
                l, _ = interval(path, sub(hi, lo))
                if l < 0: return False
        return True
    if e['kind'] == 'overflow:Sub':
        # the smallest of a list is not above its largest
        x, y = (z.a[0] if z.op == 'fld' and z.a[0].op == 'call' else None for z in e['info'])
        if x is not None and y is not None and x.a[0] == 'it:max' and y.a[0] == 'it:min' and x.a[1:] == y.a[1:]: return True
    return False

def judge(e):
    """('safe'|'open'|'unclear', path)"""
    try:
        for p in paths(e['guard']):
            if contradiction(p) or excluded(e, p): continue
            t = None
            for at, v in p: t = t or tainted(at)
            for x in e['info'] or ():
                if isinstance(x, T): t = t or tainted(x)
            return ('unclear' if t is not None or unclear(e, p) else 'open'), p
    except (Undecided, TimeUp): return 'unclear', []
    return 'safe', []
def unclear(e, p):
    """facts about the operands this theory does not interpret"""
    ops = set()
    for x in e['info'] or ():
        if isinstance(x, T): ops |= {y for y in subterms(x) if y.op not in ('lit', 'sym')}
    for at, v in p:
        if at.op == 'call' and at.a[0] not in KNOWN and not at.a[0].startswith('ovf:') and any(y in ops for y in subterms(at)): return True
    return False

def report(ck, f, r, under=TRUE, excused=lambda e, p: None, judge=judge, label=''):
    """every panic site of f (and what it calls inline) is unreachable"""
    for e in r.events:
        g = b_and(under, e['guard'])
        what = '%s%s in %s' % (label, e['kind'], e['fn'])
        v, p = judge(dict(e, guard=g)) if g is not FALSE else ('safe', [])
        if v == 'safe': ck.ok(f, what + ' is unreachable'); continue
        x = excused(e, p)
        if x: ck.ok(f, '%s only %s' % (what, x)); continue
        det = '%s at %s, reached when [%s]' % (e['kind'], e['sp'], ' & '.join('%s=%s' % (show(a, 0, 5), k) for a, k in p[-8:]))
        if v == 'unclear': ck.unk(f, what, det)
        else: ck.viol(f, what, det)
    for nt in r.notes:
        if 'unknown' in nt: ck.unk(f, label + 'call', nt)
    ck.ok(f, label + 'panic sites examined')

def roots(c):
    for (m, ty), fs in sorted(c.byimpl.items()):
        if m == 'Parse::parse':
            for f in fs:
                if f['key'] not in c.private_readers(): yield f
    for n in ('svd_parser::parse', 'svd_parser::parse_with_config'): yield c.fn(n)
    for me in ('get_text', 'get_child_text_opt', 'get_child_text', 'get_child_elem', 'get_child_u32', 'get_child_u64', 'get_child_bool', 'is_derived'):
        l = c.byimpl.get(('ElementExt::' + me, "roxmltree::Node<'_, '_>"))
        for f in l or (): yield f
def kept(c):
    """functions the readers call that are analysed on their own"""
    names = set(mb.opq(c)) | {'svd_rs::DimElement::parse_indexes'}
    for f in c.P.fns.values():
        if (f['name'] in names or f['ti'] in names) and f['cr'].startswith('svd') and '{closure' not in f['name']: yield f

def check_parser(ck):
    c = ck.c
    ck.rule('panic freedom: for every function of the parser and everything it calls, each overflow, slice, index, unwrap, assertion or explicit panic is unreachable under the conditions that guard it')
    from . import model_parse as mp
    ex = ['svd_parser::expand', 'svd_parser::expand_properties', 'svd_parser::expand::expand', 'svd_parser::expand::expand_properties']
    seen = set()
    for f, opaque in [(f, mp.opaque(c) + ex) for f in roots(c)] + [(f, []) for f in kept(c)]:
        if f['key'] in seen: continue
        seen.add(f['key'])
        def one(f=f, opaque=opaque): report(ck, f, c.run(f, opaque))
        ck.guarded('panic sites of ' + f['name'], one, anchor=f['name'])
