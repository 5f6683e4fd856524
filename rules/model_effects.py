"""Effects: no function of the crates touches anything but its arguments and
its result."""
from .data import *

DENY = {
 'file, network, process, terminal or environment access': ('std::fs::', 'std::net::', 'std::env::', 'std::process::', 'std::os::', 'std::io::stdin', 'std::io::stdout', 'std::io::stderr',
     'std::io::Stdin', 'std::io::Stdout', 'std::io::Stderr', 'std::io::stdio', 'libc::', 'std::panic::set_hook', 'std::panic::take_hook', 'std::alloc::System', 'std::backtrace::'),
 'clock access': ('std::time::Instant', 'std::time::SystemTime'),
 'threads': ('std::thread::',),
 'randomness or address-dependent result': ('rand::', 'rand_core::', 'getrandom::', 'fastrand::', 'std::hash::RandomState', 'std::hash::random', 'std::collections::hash_map::RandomState', 'std::ptr::hash',
     'core::fmt::rt::Argument::<\'_>::new_pointer', 'std::hash::BuildHasher'),
}
ALLOW = ()
# the functions whose documented purpose is a message
MESSAGES = {('std::io::_eprint', 'svd_encoder::Config::update'), ('std::io::_print', 'ElementExt>::debug'), ('std::io::_print', 'ElementExt::debug')}
HASHORDER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if', 'into_iter', 'hash_one')
HASHED = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map', 'std::collections::hash_set', 'std::collections::hash::')

def denied(n):
    m = n.lstrip('<').lstrip('&').strip()
    for a in ALLOW:
        if m.startswith(a): return None
    for why, ps in DENY.items():
        if m.startswith(ps): return why
    if m.startswith(HASHED) and n.rsplit('::', 1)[-1] in HASHORDER: return 'order of a hash table'
    if m.startswith(HASHED) and 'IntoIterator' in n: return 'order of a hash table'
    return None

def callees(P, f):
    """functions named in a body: (name, place)"""
    def consts(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'K' and isinstance(x[1], dict): yield x[1]
            else:
                for y in x: yield from consts(y)
    for b in f['b']:
        if b['cl']: continue
        for s in b['s']:
            for k in consts(s): yield k, s[-1] if isinstance(s[-1], str) else b['sp']
        for k in consts(b['t']): yield k, b['sp']

def casts(f):
    for b in f['b']:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in s[2][1]: yield s[3] if len(s) > 3 else b['sp']

def fndefs(P, i, seen):
    """functions a value of the type may be: the type itself, its captured values and parameters"""
    if i in seen: return
    seen.add(i)
    t = P.types.get(i)
    if t is None: return
    if t['k'] == 'fndef': yield t['c']

def callers(P):
    if not hasattr(P, '_callers'):
        P._callers = {}
        for f in P.fns.values():
            if not f['cr'].startswith('svd') or f['kind'] not in ('fn', 'const'): continue
            for k, _ in callees(P, f):
                if 'static' in k: continue
                for d in fndefs(P, k['ty'], set()):
                    for nm in {d['n'], d['d']}: P._callers.setdefault(nm, set()).add(f['name'].split('::{closure')[0])
    return P._callers
def message(P, nm, own, seen=()):
    """the message functions, and helpers only they call"""
    own = own.split('::{closure')[0]
    if any(a == nm and own.endswith(b) for a, b in MESSAGES): return True
    if own in seen: return True
    cs = callers(P).get(own, set()) - {own}
    return bool(cs) and all(message(P, nm, x, tuple(seen) + (own,)) for x in cs)

def check(ck):
    c = ck.c; P = c.P
    ck.rule('effects: no function body of the crates names a function of the standard or another library that accesses files, network, processes, environment, clock, threads, shared or '
            'interior mutable state, randomness, addresses or hash-table order, other than the message functions, and no static is mutable')
    n = 0
    for f in P.fns.values():
        if not f['cr'].startswith('svd') or f['kind'] not in ('fn', 'const'): continue
        if f['cr'] == 'svd_client': continue
        c.analysed[f['name']] = max(c.analysed.get(f['name'], 0), len(f['b']))
        bad = []
        own = f['name']
        for k, sp in callees(P, f):
            if 'static' in k:
                st = P.statics.get(k['static'])
                if st is None or not frozen(st): bad.append(('shared mutable state %s' % k['static'], sp))
                continue
            for d in fndefs(P, k['ty'], set()):
                for nm in {d['n'], d['d']}:
                    w = denied(nm)
                    if w: bad.append(('%s (%s)' % (nm, w), sp))
                    elif nm in ('std::io::_print', 'std::io::_eprint') and not message(P, nm, own):
                        bad.append(('%s (output)' % nm, sp))
        for sp in casts(f): bad.append(('an address is turned into a number', sp))
        if bad:
            for w, sp in bad: ck.viol(f, 'no side effects: ' + w.split(' (')[0], 'uses %s at %s' % (w, sp))
        else: ck.ok(f, 'no side effects')
        n += 1
    for nm, st in P.statics.items():
        if frozen(st): ck.add(dict(name=nm, sp=nm), 'static is immutable', 'ok')
        else: ck.viol(dict(name=nm, sp=nm), 'static is immutable', 'static of type %s' % st['ty'])

SHARED = ('Mutex', 'RwLock', 'Cell<', 'Atomic', 'OnceLock', 'Condvar', 'Pool<', 'DashMap', 'UnsafeCell')
def frozen(st):
    t = st['ty']
    if st.get('mut'): return False
    for w in ('Lazy<', 'LazyLock<', 'OnceLock<', 'OnceCell<'):
        if w in t.split('regex::')[0] and 'regex::Regex' in t: return True
    for w in ('Lazy<', 'LazyLock<'):
        # set once, by a function without arguments
        if t.split('<')[0].endswith(w[:-1]): return not any(x in t.split('<', 1)[1] for x in SHARED)
    return st.get('freeze', True)
