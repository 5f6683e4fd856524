"""Descriptions as plain values: ownership, auto traits, equality, copies, construction."""
import re
from .data import *
from engine.leafs import opt_eq

CRATES = ('svd_rs', 'svd_parser', 'svd_encoder')
INNER = re.compile(r'\b(RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|Cell|Mutex|RwLock|OnceLock|LazyLock|Atomic[A-Z]\w*)\b')
def short(n): return re.sub(r'<.*', '', n)

class World:
    def __init__(s, c):
        s.c = c; s.P = c.P
        s.adts = {n: r for n, r in c.P.attrs.items() if r['cr'] in CRATES}
        s.inst = {}
        for t in c.P.types.values():
            if t and t['k'] == 'adt' and 'send' in t: s.inst.setdefault(t['n'], []).append(t)
        s.impls = {}
        for r in c.P.impls:
            m = re.match(r'^<(.*) as (.*)>$', r['trait'] or '')
            if not m: continue
            tr = m.group(2); base = short(tr).split('::')[-1]
            if base == 'PartialEq' and '<' in tr: continue
            s.impls[(short(r['self']), base)] = r['derived']
    def data(s):
        """types of a device, and what they are made of"""
        todo = [sty(s.c, 'Device')]; seen = []
        while todo:
            n = todo.pop(0)
            if n in seen or n not in s.adts: continue
            seen.append(n)
            for v in s.adts[n]['v']:
                for f in v[2]: todo += re.findall(r'svd_rs::[\w:]+', f[2])
        return seen
    def pub(s): return [n for n, r in sorted(s.adts.items()) if r['pub'] and 'serial' not in n]

def at(r): return '%s (%s)' % (r['n'], r['sp'])
def check_owned(ck):
    c = ck.c; w = World(c)
    ck.rule('every public type can be sent to and shared between threads and has no part that changes behind a shared reference; the types of a description borrow nothing')
    D = w.data()
    for n in w.pub():
        r = w.adts[n]
        for t in w.inst.get(n, ()):
            if any('$' in x for x in (t['s'],)): continue
            for k in ('send', 'sync'):
                if t[k]: ck.ok(n, k)
                else: ck.viol(n, '%s: %s' % (k, t['s']), '%s is not %s' % (at(r), k.capitalize()))
        for v in r['v']:
            for f in v[2]:
                what = 'property %s' % f[0]
                if INNER.search(f[2]): ck.viol(n, what, '%s.%s can change behind a shared reference: %s' % (at(r), f[0], f[2]))
                elif n in D and (re.search(r"&(?!'static)", f[2]) or re.search(r"\*(const|mut) ", f[2])): ck.viol(n, what, '%s.%s is not owned: %s' % (at(r), f[0], f[2]))
                else: ck.ok(n, what)

def same(c, ty, a, b): return opt_eq(a, b) if c.P.types[ty].get('n') == 'std::option::Option' else eq(a, b)
def structural(c, ty, x, y, deep=()):
    """equality of two values of a type, property by property; those whose parts are looked at, part by part"""
    t = c.P.types[ty]
    vs = t['v']; out = FALSE
    for i, v in enumerate(vs):
        g = TRUE
        for k, f in enumerate(v['f']):
            a, b = fld(x, i, k), fld(y, i, k)
            g = b_and(g, structural(c, f[1], a, b, deep) if a in deep and c.P.types[f[1]]['k'] == 'adt' and len(c.P.types[f[1]]['v']) == 1 else same(c, f[1], a, b))
        if t['e'] and len(vs) > 1: g = b_and(guard_eq(mk('disc', x), i), b_and(guard_eq(mk('disc', y), i), g))
        out = b_or(out, g)
    return out
def parts(c, ty, x, y, found):
    """the parts of x whose own parts are compared, and the comparisons of such parts as wholes, spelled out"""
    deep = set()
    for z in subterms(found):
        if z.op != 'fld': continue
        p = z.a[0]
        while p.op == 'fld': deep.add(p); p = p.a[0]
    m = {}
    def go(ty, a, b):
        t = c.P.types[ty]
        if t['k'] != 'adt': return
        for i, v in enumerate(t['v']):
            for k, f in enumerate(v['f']):
                p, q = fld(a, i, k), fld(b, i, k); u = c.P.types[f[1]]
                if p in deep and u['k'] == 'adt' and len(u['v']) == 1:
                    go(f[1], p, q); e = eq(p, q)
                    if e.op == 'case': m[e.a[0]] = ite(structural(c, f[1], p, q, deep), lint(1), lint(0))
    go(ty, x, y)
    return deep, m
def check_equal(ck):
    c = ck.c; w = World(c)
    ck.rule('two values of the same type are equal exactly when they are the same alternative with equal properties, and a copy is equal to the original')
    D = w.data()
    for n in D + [x for x in w.pub() if x not in D]:
        r = w.adts[n]
        def one(n=n, r=r):
            for tr, me in (('PartialEq', 'PartialEq::eq'), ('Clone', 'Clone::clone')):
                k = (n, tr)
                if k not in w.impls:
                    if n in D: ck.viol(n, tr, '%s has no %s' % (at(r), tr))
                    continue
                if w.impls[k]: ck.ok(n, tr + ' derived'); continue
                fs = [f for (m, ty), l in c.byimpl.items() if m == me and short(ty) == n for f in l]
                if not fs: raise SpecGap('no instance of %s for %s' % (tr, n))
                for f in fs:
                    q = c.run(f, ['none', 'any dim']); a = c.args(f)
                    ty = c.P.types[f['locals'][1]]; ty = ty['t'] if ty['k'] == 'ref' else f['locals'][1]
                    if tr == 'Clone': ck.same(f, 'a copy is equal', q.ret, a[0], notes=q.notes)
                    else:
                        deep, m = parts(c, ty, a[0], a[1], q.ret)
                        ck.same(f, 'equal exactly when all properties are', subst(q.ret, m) if m else q.ret, structural(c, ty, a[0], a[1], deep), notes=q.notes)
            # a hash that tells apart what is equal
            if (n, 'Hash') in w.impls:
                if w.impls[(n, 'Hash')] and w.impls.get((n, 'PartialEq')): ck.ok(n, 'Hash derived with PartialEq')
                else: raise SpecGap('hash or equality of %s written by hand' % n)
        ck.guarded('equality of ' + n, one, anchor=n, private=True)

def check_closed(ck):
    c = ck.c; w = World(c)
    ck.rule('outside its crate an element with a builder cannot be written as a literal, nor can the builder be filled but by its methods')
    n = 0
    made = {}
    for f in c.P.fns.values():
        if f['cr'] != 'svd_rs' or f['name'].split('::')[-1] != 'build' or f['argc'] < 2: continue
        t = c.P.types[f['locals'][0]]; b = c.P.types[f['locals'][1]]
        if t.get('n') != 'std::result::Result' or b['k'] != 'adt': continue
        e = c.P.types[t['a'][0]]
        if e['k'] == 'adt' and e['n'] in w.adts: made[e['n']] = b['n']
    if not made: raise Missing('no builder')
    for e, b in sorted(made.items()):
        for x in {e, b}:
            if w.adts[x]['closed']: ck.ok(x, 'not open to literals')
            else: ck.viol(x, 'not open to literals', '%s can be written as a literal outside its crate, without the checks of its builder' % at(w.adts[x]))

DEFAULTS = dict(Access='ReadWrite', Usage='ReadWrite', Endian='Little', Protection='NonSecure', AddressBlockUsage='Registers', ModifiedWriteValues='Modify', ReadAction='Modify')
def check_defaults(ck):
    c = ck.c
    ck.rule('the default of each keyword type is the one documented')
    for k, v in DEFAULTS.items():
        def one(k=k, v=v):
            f = c.impl('Default::default', sty(c, k)); r = c.run(f)
            ck.same(f, 'default', r.ret, c.variant(sty(c, k), v), notes=r.notes)
        ck.guarded('default of ' + k, one, anchor='Default for ' + k)
