"""Transfer functions for the library functions the crates call (std, roxmltree,
xmltree, indexmap, ...).  A function without one is kept as an uninterpreted
term constructor over its arguments."""
from .terms import *
from . import terms as tm

H = {}      # decl path -> handler
HN = {}     # resolved path -> handler
def reg(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
def regn(*names):
    def d(f):
        for n in names: HN[n] = f
        return f
    return d

WHOLE_EQ = [True]   # derived equality as one relation on the values
def lookup(c, fn):
    if fn is not None and fn['derived'] and fn['ti'] == 'std::clone::Clone::clone': return h_ident
    if fn is not None and fn['derived'] and fn['ti'] == 'std::cmp::PartialEq::eq' and WHOLE_EQ[0]: return H['std::cmp::PartialEq::eq']
    if fn is not None and fn['cr'].startswith('svd'):
        if fn['ti'] == 'std::iter::Iterator::next':
            if iter_kind(fn['name'].lstrip('<').split(' as ')[0]) in ITERS: return h_next
        return None
    h = HN.get(c['n'])
    if h is not None: return h
    h = H.get(c['d'])
    return h

# ------------------------------------------------------------ helpers
def cur_of(s, a):
    if a.op == 'mref': return ('root', a.a[0], a.a[1])
    if a.op == 'case':
        return s.deref_loc(a, ('val', a))
    return ('val', a)
def rd(s, a, mem):
    v = s.deref(a, mem)
    n = 0
    while v.op == 'mref' and n < 8: v = s.deref(v, mem); n += 1
    if v.op == 'case' and any(l.op == 'mref' for l, _ in leaves(v)): v = s.deref(v, mem)
    return v
def wr(s, a, mem, v):
    # through nested references
    n = 0
    while a.op == 'mref' and n < 8:
        b = s.load(cur_of(s, a), mem)
        if b.op == 'mref': a = b; n += 1
        else: break
    s.store(cur_of(s, a), mem, v)
def full(s, a, mem): return s.deref_all(a, mem)
def call(n, *xs): return lift(lambda *ys: mk('call', n, *ys), xs) if xs else mk('call', n)
def opt_call(n, *xs):
    def f(*ys):
        t = mk('call', n, *ys)
        d = mk('disc', t)
        if d not in DOM: DOM[d] = (0, 1)
        assert tm.ENUMTY.setdefault(t, 'Option') == 'Option', n
        return t
    return lift(f, xs)
def pure(f):
    def h(s, c, args, mem, p, dty, site):
        return f(s, *[rd(s, a, mem) for a in args]), mem, p
    return h
# the project's own iterators, as list transformers (their `next` is verified against these by the rules of C21)
ITERS = {'RegisterIter': 'Register', 'RegisterIterMut': 'Register', 'ClusterIter': 'Cluster', 'ClusterIterMut': 'Cluster',
         'AllRegistersIter': None, 'AllRegistersIterMut': None, 'Indexes': None}
def iter_kind(n): return n.split('<')[0].split('::')[-1] if n.startswith('svd_rs::') else ''
RC = 'svd_rs::RegisterCluster'
def only_variant(s, L, var):
    """the payloads of the RegisterCluster elements of L with the given variant"""
    rc = s.p.adt_by_name[RC]
    vi = [i for i, v in enumerate(rc['v']) if v['n'] == var][0]
    dom = s.p.dom(rc['id'])
    def one(x):
        if x.op == 'mref':
            e = x.a[1][-1][1] if x.a[1] and x.a[1][-1][0] == 'e' else None
            if e is None: return [item(mk('call', 'opaque-const', x))]
            return [seg_if(guard_eq(disc(e, dom, RC), vi), [item(mk('mref', x.a[0], x.a[1] + (('f', vi, 0),)))])]
        return [seg_if(guard_eq(disc(x, dom, RC), vi), [item(fld(x, vi, 0))])]
    def go(sg):
        if sg.op == 'item': return one(sg.a[0])
        if sg.op == 'if': return [seg_if(sg.a[0], sum([go(x) for x in sg.a[1:]], []))]
        if sg.op == 'for': return [seg_for(sg.a[0], sg.a[1], sum([go(x) for x in sg.a[2:]], []))]
        X = sg.a[0]; d = s.depth_for(X)
        return [seg_for(X, d, one(elem(X, d)))]
    return lift1(lambda l: mk_list(sum([go(x) for x in segs_of(l)], [])), L)
def indexes(s, dim, di):
    """the index texts of a dimension: the given list, or 0..dim-1"""
    U = rng(s, lint(0), dim)
    def txt(v):
        if v.op == 'list':
            def seg(x):
                if x.op == 'for': return seg_for(x.a[0], x.a[1], [seg(y) for y in x.a[2:]])
                return item(lstr(str(x.a[0].a[1])) if x.a[0].op == 'lit' else mk('call', 'dec', x.a[0]))
            return mk_list([seg(x) for x in v.a])
        d = s.depth_for(v)
        return mk_list([seg_for(v, d, [item(mk('call', 'dec', elem(v, d)))])])
    gen = lift1(txt, U)
    given = fld(di, 1, 0)
    if getattr(s, 'any_dim', False):   # as many names as elements is not taken for granted
        given = lift1(lambda l: ite(eq(length(l), dim), l, mk('call', 'take', l, dim)), given)
    return ite(guard_eq(disc(di, (0, 1)), 1), given, gen)
def as_list(s, v, mem=None):
    def f(l):
        k = iter_kind(l.a[0]) if l.op == 'adt' else ''
        if k in ITERS:
            if k == 'Indexes':
                t = s.p.adt_by_name[l.a[0]]
                fs = {f[0]: l.a[2 + i] for i, f in enumerate(t['v'][0]['f'])}
                if sorted(fs) == ['dim', 'dim_index', 'i'] and fs['i'] is lint(0): return indexes(s, fs['dim'], fs['dim_index'])
            elif len(l.a) == 3 and ITERS[k]: return only_variant(s, l.a[2], ITERS[k])
            elif len(l.a) == 3: return lift1(lambda x: mk('call', 'allregs', x), rev(s, l.a[2]))
        if l.op == 'adt' and l.a[0] in ('std::option::Iter', 'std::option::IterMut', 'std::option::IntoIter', 'std::option::Item') and len(l.a) == 3:
            return as_list(s, l.a[2])
        if l.op == 'adt' and l.a[0] == 'std::ops::Range':
            return rng(s, l.a[2], l.a[3])
        if l.op == 'adt' and l.a[0] == 'std::ops::RangeInclusive':
            return rng(s, l.a[2], add(l.a[3], lint(1)))
        if l.op == 'adt' and l.a[0] == 'Option':
            return mk_list([item(x) for x in l.a[2:]])
        if tm.ENUMTY.get(l) == 'Option':
            return mk_case(disc(l, (0, 1)), {0: EMPTYL, 1: mk_list([item(fld(l, 1, 0))])})
        return l
    v = lift1(f, v)
    return v
def rng(s, a, b):
    n = sub(b, a)
    def f(n_, a_):
        if n_.op == 'lit':
            if n_.a[1] <= 0: return EMPTYL
            if n_.a[1] <= 16: return mk_list([item(add(a_, lint(i))) for i in range(n_.a[1])])
        if a_.op == 'lit' and a_.a[1] == 0 and n_.op == 'call' and n_.a[0] == 'len':
            # the positions of a list
            X = n_.a[1]; d = s.depth_for(X)
            return mk_list([mk('for', X, d, item(mk('ix', X, d)))])
        U = mk('call', 'upto', n_)
        d = s.depth_for(U)
        if a_.op == 'lit' and a_.a[1] == 0: return U
        return mk_list([seg_for(U, d, [item(add(a_, mk('ix', U, d)))])])
    return lift(f, (n, a))

def h_ident(s, c, args, mem, p, dty, site):
    return full(s, args[0], mem) if args[0].op == 'mref' and False else rdv(s, args[0], mem), mem, p
def rdv(s, a, mem):
    return rd(s, a, mem)
def h_pass(s, c, args, mem, p, dty, site):
    return args[0], mem, p

for n in ['std::borrow::ToOwned::to_owned', 'std::clone::Clone::clone', 'std::ops::Deref::deref',
          'std::string::String::as_str', 'std::vec::Vec::<T, A>::as_slice', 'std::iter::Iterator::cloned',
          'std::iter::Iterator::copied', 'std::hint::must_use', 'anyhow::__private::must_use',
          'core::str::<impl str>::as_bytes', 'core::str::<impl str>::to_string', 'std::string::String::into_boxed_str',
          'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'std::boxed::Box::<T>::new',
          'std::string::String::into_bytes', 'std::string::String::as_bytes', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
          'thiserror::display::AsDisplay::as_display', 'thiserror::aserror::AsDynError::as_dyn_error',
          'std::boxed::box_assume_init_into_vec_unsafe', 'std::borrow::Cow::<\'_, B>::into_owned', 'std::borrow::Cow::<\'_, B>::to_mut',
          'std::iter::Iterator::by_ref_', 'std::iter::Iterator::peekable', 'std::iter::Iterator::fuse',
          'std::vec::Vec::<T, A>::into_boxed_slice', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new',
          'core::slice::<impl [T]>::as_ref', 'core::slice::<impl [T]>::iter', 'std::string::String::into_string',
          'std::hint::black_box', 'std::convert::identity', 'core::str::<impl str>::as_ref', 'core::str::<impl str>::chars_',
          'std::option::Option::<T>::iter_']:
    H[n] = h_ident
for n in ['std::ops::DerefMut::deref_mut', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::convert::AsMut::as_mut',
          'std::iter::Iterator::by_ref', 'std::borrow::BorrowMut::borrow_mut']:
    H[n] = h_pass

@reg('std::ops::Deref::deref')
def h_deref(s, c, args, mem, p, dty, site):
    if 'once_cell' in c['n'] or 'LazyLock' in c['n'] or 'Lazy<' in c['n']:
        v = rd(s, args[0], mem)
        if v.op == 'sym' and str(v.a[0]).startswith('static:'):
            ks = s.p.staticfns.get(v.a[0][7:], [])
            if len(ks) == 1:
                ev = len(s.events)
                r, m, g = s.call_body(s.p.fns[ks[0]], [UNIT], {}, TRUE)
                del s.events[ev:]
                return s.deref_all(r, m), mem, p
        return call('lazy', v), mem, p
    return rd(s, args[0], mem), mem, p

@reg('std::boxed::Box::<T>::new_uninit')
def h_uninit(s, c, args, mem, p, dty, site):
    s.nheap += 1
    mem = dict(mem); mem[('h', s.nheap)] = mk('uninit')
    return mk('mref', ('h', s.nheap), ()), mem, p

# conversions
@reg('std::convert::From::from')
def h_from(s, c, args, mem, p, dty, site):
    n = c['n']
    if 'anyhow' in n: return call('anyhow', full(s, args[0], mem)), mem, p
    if 'char::convert' in n:
        v = rd(s, args[0], mem)
        return lift1(lambda l: lchar(chr(l.a[1])) if l.op == 'lit' else l, v), mem, p
    ts = [s.p.types[x]['s'] for x in c['a']]
    if 'std::num' in n or 'HashMap' in n or 'IndexMap' in n: return rd(s, args[0], mem), mem, p
    return rd(s, args[0], mem), mem, p

@reg('std::convert::Into::into')
def h_into(s, c, args, mem, p, dty, site):
    return NotImplemented

@reg('std::string::ToString::to_string')
def h_tostring(s, c, args, mem, p, dty, site):
    return display(s, args[0], c['a'][0], mem, p, site)

def chtext(l):
    """the text that consists of the one character l"""
    if l.op == 'lit': return lstr(l.a[1]) if l.a[0] != 'i' else lstr(chr(l.a[1]))
    return mk('call', 'chstr', l)

def display(s, v, ty, mem, p, site, spec=''):
    ty = s.p.strip_ref(ty)
    t = s.p.types[ty]
    if t['k'] == 'adt' and t['n'] in ('std::boxed::Box', 'std::borrow::Cow') and t['a']:
        if t['n'] == 'std::borrow::Cow' or s.p.types[t['a'][0]]['k'] in ('str',): return rd(s, v, mem), mem, p
    if t['k'] in ('str', 'char') or t['s'] in ('std::string::String', 'str'):
        x = rd(s, v, mem)
        if t['k'] == 'char': return lift1(chtext, x), mem, p
        return lift1(lambda l: lstr(l.a[1]) if l.op == 'lit' and l.a[0] == 'c' else l, x), mem, p
    if t['k'] in ('int', 'uint'):
        x = rd(s, v, mem)
        return lift1(lambda l: lstr(str(l.a[1])) if l.op == 'lit' else mk('call', 'dec', l), x), mem, p
    if t['k'] == 'bool':
        return ite(s.asbool(rd(s, v, mem)), lstr('true'), lstr('false')), mem, p
    key = s.p.impl_of('std::fmt::Display::fmt', ty)
    if key is not None and len(s.stack) < s.limit and not any(f.fn['key'] == key for f in s.stack):
        s.nheap += 1
        root = ('h', s.nheap)
        m = dict(mem); m[root] = adt('fmt', 0, lstr(''))
        r, m2, g = s.call_body(s.p.fns[key], [v, mk('mref', root, ())], m, p)
        if r is not BOT:
            o = s.read_path(m2[root], (('f', 0, 0),))
            m2 = dict(m2); m2.pop(root, None)
            return o, m2, b_and(p, g)
    return call('display', full(s, v, mem)), mem, p

# ------------------------------------------------------------ formatting
def decode_fmt(b):
    """compiled format template -> list of ('s', text) / ('a', index, flags, width, prec)"""
    out = []; i = 0; nxt = 0
    while i < len(b):
        x = b[i]; i += 1
        if x == 0: break
        if x < 0x80:
            out.append(('s', bytes(b[i:i + x]).decode())); i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2
            out.append(('s', bytes(b[i:i + n]).decode())); i += n
        else:
            fl = 0xe0000020; w = None; pr = None; ai = nxt
            if x & 1: fl = int.from_bytes(bytes(b[i:i + 4]), 'little'); i += 4
            if x & 2: w = b[i] | b[i + 1] << 8; i += 2
            if x & 4: pr = b[i] | b[i + 1] << 8; i += 2
            if x & 8: ai = b[i] | b[i + 1] << 8; i += 2
            nxt = ai + 1
            out.append(('a', ai, fl, w, pr))
    return out

@reg('std::fmt::Arguments::<\'a>::new')
def h_args_new(s, c, args, mem, p, dty, site):
    t = rd(s, args[0], mem); a = rd(s, args[1], mem)
    if t.op == 'list': b = tuple(x.a[0].a[1] for x in t.a)
    elif t.op == 'lit' and t.a[0] == 'y': b = t.a[1]
    elif t.op == 'lit' and t.a[0] == 's': b = tuple(t.a[1].encode('latin1'))
    else: return call('fmtargs', t, full(s, a, mem)), mem, p
    out = []
    al = [x.a[0] for x in a.a] if a.op == 'list' else None
    if al is None: return call('fmtargs', t, full(s, a, mem)), mem, p
    for e in decode_fmt(b):
        if e[0] == 's': out.append(lstr(e[1])); continue
        _, i, fl, w, pr = e
        x = al[i]
        kind = x.a[0][7:]; val = x.a[2]
        alt = bool(fl & (1 << 23)); zero = bool(fl & (1 << 24))
        plain = w is None and pr is None and (fl & 0x1fffff) in (0x20, 0) and not alt and not zero and not (fl & (1 << 27))
        if kind == 'display' and plain: out.append(val); continue
        if kind in ('lower_hex', 'upper_hex', 'binary', 'octal', 'debug', 'display'):
            spec = kind + ('#' if alt else '') + ('0%s' % w if zero and w else ('%s' % w if w else '')) + ('.%s' % pr if pr is not None else '')
            if kind == 'display' : val = mk('call', 'dispval', val) if False else val
            out.append(lift1(lambda l: mk('call', 'fmt:' + spec, l), val))
        else: out.append(lift1(lambda l: mk('call', 'fmt?', l), val))
    return cat(*out) if out else lstr(''), mem, p

@reg('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::new_const', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
def h_args_str(s, c, args, mem, p, dty, site):
    return rd(s, args[0], mem), mem, p
@reg('std::fmt::Arguments::<\'a>::as_str')
def h_args_as(s, c, args, mem, p, dty, site):
    v = rd(s, args[0], mem)
    return lift1(lambda l: SOME(l) if l.op == 'lit' else opt_call('args_as_str', l), v), mem, p

def h_arg(kind):
    def h(s, c, args, mem, p, dty, site):
        ty = c['a'][-1]
        if kind == 'display':
            v, mem, p = display(s, args[0], ty, mem, p, site)
        else: v = full(s, args[0], mem)
        return adt('fmtarg:' + kind, 0, v), mem, p
    return h
for k in ['display', 'debug', 'lower_hex', 'upper_hex', 'binary', 'octal', 'pointer']:
    H["core::fmt::rt::Argument::<'_>::new_" + k] = h_arg(k)

@reg('std::fmt::format', 'std::fmt::format::format_inner')
def h_format(s, c, args, mem, p, dty, site):
    return rd(s, args[0], mem), mem, p
@reg('std::fmt::Formatter::<\'a>::write_fmt', 'std::fmt::Formatter::<\'a>::write_str', 'std::fmt::Write::write_str', 'std::fmt::Write::write_fmt', 'std::fmt::Formatter::<\'a>::pad')
def h_write(s, c, args, mem, p, dty, site):
    mem = dict(mem)
    f = rd(s, args[0], mem)
    add_ = rd(s, args[1], mem)
    if f.op == 'adt' and f.a[0] == 'fmt': wr(s, args[0], mem, adt('fmt', 0, cat(f.a[2], add_)))
    else: wr(s, args[0], mem, cat(f, add_))
    return OK(UNIT), mem, p
@reg('std::fmt::Write::write_char', 'std::string::String::push', 'std::string::String::push_str')
def h_pushstr(s, c, args, mem, p, dty, site):
    mem = dict(mem)
    f = rd(s, args[0], mem)
    add_ = rd(s, args[1], mem)
    if not c['d'].endswith('push_str'): add_ = lift1(lambda l: chtext(l) if l.op != 'lit' else l, add_)
    if f.op == 'adt' and f.a[0] == 'fmt': wr(s, args[0], mem, adt('fmt', 0, cat(f.a[2], add_)))
    else: wr(s, args[0], mem, cat(f, add_))
    return (OK(UNIT) if 'Write' in c['d'] else UNIT), mem, p
@reg('std::string::String::new')
def h_strnew(s, c, args, mem, p, dty, site): return lstr(''), mem, p
@reg('std::string::String::with_capacity')
def h_strcap(s, c, args, mem, p, dty, site): return lstr(''), mem, p
@reg('std::ops::Add::add')
def h_add(s, c, args, mem, p, dty, site):
    if 'String' in c['n']: return cat(rd(s, args[0], mem), rd(s, args[1], mem)), mem, p
    return NotImplemented
@reg('std::ops::AddAssign::add_assign')
def h_addas(s, c, args, mem, p, dty, site):
    if 'String' in c['n']: return h_pushstr(s, dict(c, d='push_str'), args, mem, p, dty, site)
    return NotImplemented
@reg('std::io::_print', 'std::io::_eprint')
def h_print(s, c, args, mem, p, dty, site): return UNIT, mem, p

# ------------------------------------------------------------ anyhow
@reg('anyhow::__private::format_err', 'anyhow::error::<impl anyhow::Error>::msg', 'anyhow::Error::msg', 'anyhow::error::<impl anyhow::Error>::new')
def h_anyhow(s, c, args, mem, p, dty, site): return call('anyhow', full(s, args[0], mem)), mem, p
@reg('svd_parser::Context::with_context', 'svd_parser::Context::context', 'anyhow::Context::with_context', 'anyhow::Context::context')
def h_ctx(s, c, args, mem, p, dty, site):
    if c['d'].startswith('svd_parser') and 'anyhow' not in c['n']: return NotImplemented
    r = rd(s, args[0], mem)
    opt = s.p.types[s.p.strip_ref(c['a'][0])]['s'].startswith('std::option') if c['a'] else False
    good = 1 if opt else 0
    g = guard_eq(disc(r, (0, 1)), good)
    bad = b_and(p, b_not(g))
    if bad is FALSE: return OK(fld(r, good, 0)), mem, p
    if c['d'].endswith('with_context'):
        m, mem2, _ = s.apply(args[1], [], mem, bad, site)
    else: m = full(s, args[1], mem); mem2 = mem
    e = call('ctx', full(s, m, mem2), call('nonev') if opt else fld(r, 1, 0))
    return ite(g, OK(fld(r, good, 0)), ERR(e)), mem, p

# ------------------------------------------------------------ strings
def strpat(s, v):
    if v.op == 'lit' and v.a[0] == 'c': return lstr(v.a[1])
    return v
def pat_of(s, v, mem, p, site):
    v = rd(s, v, mem)
    if v.op == 'adt' and v.a[0].startswith('closure:') or v.op == 'fn':
        a = mk('elem', sym('patchar'), 1)
        sv = len(s.events)
        r, m2, p2 = s.apply(v, [a], mem, p, site)
        del s.events[sv:]
        return mk('call', 'charpred', s.deref_all(r, m2))
    if v.op == 'list': return mk('call', 'charset', v)
    return lift1(lambda l: strpat(s, l), v)
def strb(name, py=None):
    def h(s, c, args, mem, p, dty, site):
        x = rd(s, args[0], mem); y = pat_of(s, args[1], mem, p, site)
        def f(a, b):
            if py and a.op == 'lit' and b.op == 'lit': return lbool(py(a.a[1], b.a[1]))
            if a.op == 'call' and a.a[0] == 'cat' and b.op == 'lit':
                if name == 'starts' and a.a[1].op == 'lit' and len(a.a[1].a[1]) >= len(b.a[1]): return lbool(a.a[1].a[1].startswith(b.a[1]))
                if name == 'ends' and a.a[-1].op == 'lit' and len(a.a[-1].a[1]) >= len(b.a[1]): return lbool(a.a[-1].a[1].endswith(b.a[1]))
                if name == 'contains' and any(q.op == 'lit' and b.a[1] in q.a[1] for q in a.a[1:]): return TRUE
            return atom_bool(mk('call', name, a, b))
        return lift(f, (x, y)), mem, p
    return h
H['core::str::<impl str>::starts_with'] = strb('starts', lambda a, b: a.startswith(b))
H['core::str::<impl str>::ends_with'] = strb('ends', lambda a, b: a.endswith(b))
H['core::str::<impl str>::contains'] = strb('contains', lambda a, b: b in a)

@reg('core::str::<impl str>::len', 'std::string::String::len')
def h_strlen(s, c, args, mem, p, dty, site):
    return lift1(strlen, rd(s, args[0], mem)), mem, p
@reg('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def h_strempty(s, c, args, mem, p, dty, site):
    return eq(rd(s, args[0], mem), lstr('')), mem, p
@reg('core::str::<impl str>::trim')
def h_trim(s, c, args, mem, p, dty, site):
    def f(l):
        if l.op == 'lit': return lstr(l.a[1].strip())
        if l.op == 'call' and l.a[0] == 'trim': return l
        return mk('call', 'trim', l)
    return lift1(f, rd(s, args[0], mem)), mem, p
@reg('core::str::<impl str>::split')
def h_split(s, c, args, mem, p, dty, site):
    return split(rd(s, args[0], mem), pat_of(s, args[1], mem, p, site)), mem, p
def split(x, p):
    """parts of a text between separators; never empty"""
    def f(l, q):
        if l.op == 'call' and l.a[0] == 'rhead' and l.a[2] is q: return init(split(l.a[1], q))
        return mk('call', 'split', l, q)
    return lift(f, (x, p))
def rsplit_once(x, p):
    """what precedes the last separator, and the last part"""
    def f(l, q):
        if q.op != 'lit' or not q.a[1]: return opt_call('rsplit_once', l, q)
        parts = split(l, q)
        front = init(parts)
        return ite(guard_eq(mk('call', 'len', front), 0), NONE(), SOME(tup(mk('call', 'rhead', l, q), fld(opt_last(parts), 1, 0))))
    return lift(f, (x, p))
def init(v):
    """all but the last"""
    if v.op == 'call' and v.a[0] == 'skip': return mk('call', 'skip', init(v.a[1]), *v.a[2:])
    return mk('call', 'init', v)
def opt_last(v, s=None):
    some = s.nonempty(v) if s is not None else b_not(guard_eq(mk('call', 'len', v), 0))
    return ite(some, SOME(fld(mk('call', 'last', v), 1, 0)), NONE())
@reg('core::str::<impl str>::rsplit_once')
def h_rsplit_once(s, c, args, mem, p, dty, site):
    return rsplit_once(rd(s, args[0], mem), pat_of(s, args[1], mem, p, site)), mem, p
def split_once(s, x, p):
    """what precedes the first separator, and what follows"""
    def f(l, q):
        if q.op != 'lit' or not q.a[1]: return opt_call('split_once', l, q)
        if l.op == 'lit':
            x = l.a[1].split(q.a[1], 1)
            return SOME(tup(lstr(x[0]), lstr(x[1]))) if len(x) == 2 else NONE()
        if len(q.a[1]) != 1 or q.a[1].isalnum() or q.a[1] in '+-':
            r = mk('call', 'split_once', l, q)
            return ite(atom_bool(mk('call', 'contains', l, q)), SOME(tup(fld(r, 0, 0), fld(r, 0, 1))), NONE())
        parts = split(l, q)
        p0, p1, p2 = s.head(parts), s.head(skip(s, parts, lint(1))), s.head(skip(s, parts, lint(2)))
        some = lambda o: guard_eq(disc(o, (0, 1)), 1)
        rest = ite(some(p2), mk('call', 'splitrest', l, q), fld(p1, 1, 0))
        return ite(some(p1), SOME(tup(fld(p0, 1, 0), rest)), NONE())
    return lift(f, (x, p))
@reg('core::str::<impl str>::split_once')
def h_split_once(s, c, args, mem, p, dty, site):
    return split_once(s, rd(s, args[0], mem), pat_of(s, args[1], mem, p, site)), mem, p
for nm in ['find', 'rfind']:
    def mkh(nm):
        def h(s, c, args, mem, p, dty, site):
            return opt_call(nm, rd(s, args[0], mem), pat_of(s, args[1], mem, p, site)), mem, p
        return h
    H['core::str::<impl str>::' + nm] = mkh(nm)
@reg('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix')
def h_strip(s, c, args, mem, p, dty, site):
    x = rd(s, args[0], mem); y = pat_of(s, args[1], mem, p, site)
    pre = c['d'].endswith('prefix')
    def f(a, b):
        if a.op == 'lit' and b.op == 'lit':
            if pre: return SOME(lstr(a.a[1][len(b.a[1]):])) if a.a[1].startswith(b.a[1]) else NONE()
            return SOME(lstr(a.a[1][:-len(b.a[1])])) if a.a[1].endswith(b.a[1]) else NONE()
        ln = strlen(b)
        if not pre and b.op == 'lit' and b.a[1] and a.op == 'call' and a.a[0] == 'strslice' and len(a.a) == 3 and a.a[2].op == 'lit':
            # the rest behind a known prefix, whose end cannot be part of the suffix
            y, k = a.a[1], a.a[2].a[1]
            q = [at.a[2].a[1] for at, v in units(p).items() if v == 1 and at.op == 'call' and at.a[0] == 'starts' and at.a[1] is y and at.a[2].op == 'lit']
            if any(len(x.encode()) == k and not any(x.endswith(b.a[1][:i]) for i in range(1, len(b.a[1]) + 1)) for x in q):
                return ite(atom_bool(mk('call', 'ends', y, b)), SOME(strslice(y, lint(k), sub(strlen(y), ln))), NONE())
        g = atom_bool(mk('call', 'starts' if pre else 'ends', a, b))
        sl = strslice(a, ln, None) if pre else strslice(a, lint(0), sub(strlen(a), ln))
        return ite(g, SOME(sl), NONE())
    return lift(f, (x, y)), mem, p
def strlen(l):
    if l.op == 'lit': return lint(len(l.a[1].encode()))
    if l.op == 'call' and l.a[0] == 'strslice': return sub(l.a[3] if len(l.a) > 3 else strlen(l.a[1]), l.a[2])
    return mk('call', 'strlen', l)
def strslice(a, lo, hi):
    def f(x, l):
        if x.op == 'lit' and l.op == 'lit' and hi is None: return lstr(x.a[1].encode()[l.a[1]:].decode())
        if hi is None and x.op == 'call' and x.a[0] == 'lower' and l.op == 'lit' and l.a[1] <= 2:   # behind a prefix of ASCII characters
            return mk('call', 'lower', strslice(x.a[1], l, None))
        if x.op == 'call' and x.a[0] == 'strslice':   # a part of a part
            h = add(x.a[2], hi) if hi is not None else x.a[3] if len(x.a) > 3 else None
            return strslice(x.a[1], add(x.a[2], l), h)
        if hi is None: return mk('call', 'strslice', x, l)
        return mk('call', 'strslice', x, l, hi)
    return lift(f, (a, lo))
def slice_bounds(r):
    if r.op == 'adt':
        n = r.a[0]
        if n == 'std::ops::RangeFrom': return r.a[2], None
        if n == 'std::ops::Range': return r.a[2], r.a[3]
        if n == 'std::ops::RangeTo': return lint(0), r.a[2]
        if n == 'std::ops::RangeFull': return lint(0), None
        if n == 'std::ops::RangeInclusive': return r.a[2], add(r.a[3], lint(1))
        if n == 'std::ops::RangeToInclusive': return lint(0), add(r.a[2], lint(1))
    return None
def ev(s, kind, p, site, info):
    fr, b = site
    s.event(kind, p, fr, b, info)

def str_index(s, args, mem, p, site):
    x = rd(s, args[0], mem); r = rd(s, args[1], mem)
    bd = slice_bounds(r)
    # `&x[n..]` under a known literal prefix of length n cannot fail
    def f(a):
        if bd is not None:
            lo, hi = bd
            return strslice(a, lo, hi)
        return mk('call', 'strindex', a, r)
    bad = p
    if bd is not None and bd[0].op == 'lit' and bd[1] is None:
        if bd[0].a[1] == 0: bad = FALSE
        else:
            # guarded by a starts_with test of at least that length
            ok = FALSE
            for at, v in units(p).items():
                if at.op == 'call' and at.a[0] == 'starts' and v == 1 and at.a[1] is x and at.a[2].op == 'lit' and len(at.a[2].a[1].encode()) == bd[0].a[1]: bad = FALSE
            if bad is not FALSE:
                bad = prefix_safe(p, x, bd[0].a[1])
    if bad is not FALSE:
        xx, rr, b2 = x, r, bd
        while b2 is not None and xx.op == 'call' and xx.a[0] == 'strslice':   # a part of a part that exists is a part of the whole
            lo, hi = b2
            hi = add(xx.a[2], hi) if hi is not None else xx.a[3] if len(xx.a) > 3 else None
            lo = add(xx.a[2], lo); xx = xx.a[1]; b2 = lo, hi
            rr = adt('std::ops::RangeFrom', 0, lo) if hi is None else adt('std::ops::Range', 0, lo, hi)
        ev(s, 'str-index', bad, site, [xx, rr])
    return lift1(f, x), mem, p
def prefix_safe(p, x, n):
    """part of guard p under which no starts_with(x, literal of >= n ascii bytes) fact holds"""
    def go(g, known):
        if g is FALSE or g is BOT: return FALSE
        if known: return FALSE
        if g.op != 'case': return g
        at = g.a[0]
        d = {}
        for k, t in g.a[1]:
            fact = at.op == 'call' and at.a[0] == 'starts' and at.a[1] is x and at.a[2].op == 'lit' and len(at.a[2].a[1].encode()) >= n and at.a[2].a[1].isascii() and k == 1
            d[k] = go(t, fact)
        return mk_case(at, d, go(g.a[2], False) if g.a[2] is not None else None)
    return go(p, False)

@reg('std::ops::Index::index')
def h_index(s, c, args, mem, p, dty, site):
    n = c['n']
    ty = s.p.types[s.p.strip_ref(c['a'][0])]
    if ty['k'] == 'str' or ty['s'] == 'std::string::String': return str_index(s, args, mem, p, site)
    if 'HashMap' in n or 'IndexMap' in n:
        m = rd(s, args[0], mem); k = rd(s, args[1], mem)
        ev(s, 'map-index', p, site, [m, k])
        return fld(opt_call('map_get', m, k), 1, 0), mem, p
    l = rd(s, args[0], mem); i = rd(s, args[1], mem)
    bd = slice_bounds(i)
    if bd is not None:
        lo, hi = bd
        if not (lo.op == 'lit' and lo.a[1] == 0 and hi is None): ev(s, 'slice-index', p, site, [l, i])
        if hi is None:
            return skip(s, l, lo), mem, p
        return call('subslice', l, lo, hi), mem, p
    bad = b_and(p, b_not(lt(i, s.length(l))))
    if bad is not FALSE: ev(s, 'index', bad, site, [l, i])
    return s.index(l, i), mem, p
@reg('std::ops::IndexMut::index_mut')
def h_indexmut(s, c, args, mem, p, dty, site):
    if args[0].op == 'mref':
        i = rd(s, args[1], mem)
        ev(s, 'index', p, site, [rd(s, args[0], mem), i])
        return mk('mref', args[0].a[0], args[0].a[1] + (('x', i),)), mem, p
    return NotImplemented

@reg('core::str::<impl str>::parse')
def h_parse(s, c, args, mem, p, dty, site):
    t = s.p.types[c['a'][0]]
    x = rd(s, args[0], mem)
    key = s.p.fromstr_of(c['a'][0])
    if key is not None: 
        fn = s.p.fns[key]
        if not s.opaque(fn) and not any(f.fn['key'] == key for f in s.stack):
            r, m2, g = s.call_body(fn, [x], mem, p)
            return r, m2, b_and(p, g)
    return res_call('parse[%s]' % t['s'], x), mem, p
def res_call(n, *xs):
    def f(*ys):
        y = ys[0] if ys else None
        if y is not None and y.op == 'call' and y.a[0] == 'splitrest' and n[:7] in ('parse[u', 'parse[i') and not n.endswith('?'):
            return ERR(mk('call', 'parseerr', lstr(n), y))   # contains the separator, which is no digit
        t = mk('call', n, *ys)
        d = mk('disc', t)
        if d not in DOM: DOM[d] = (0, 1)
        pass
        return t
    return lift(f, xs)
@reg('std::str::FromStr::from_str')
def h_fromstr(s, c, args, mem, p, dty, site):
    t = s.p.types[c['a'][0]]
    return res_call('parse[%s]' % t['s'], rd(s, args[0], mem)), mem, p
for ty in ['u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'u128']:
    def mkr(ty):
        def h(s, c, args, mem, p, dty, site):
            x, r = rd(s, args[0], mem), rd(s, args[1], mem)
            def f(a, b):
                nm = 'parse[%s]' % ty if b.op == 'lit' and b.a[1] == 10 else 'parse[%s]#%s' % (ty, b.a[1] if b.op == 'lit' else '?')
                t = mk('call', nm, a) if b.op == 'lit' else mk('call', nm, a, b)
                d = mk('disc', t)
                if d not in DOM: DOM[d] = (0, 1)
                pass
                return t
            return lift(f, (x, r)), mem, p
        return h
    H['core::num::<impl %s>::from_str_radix' % ty] = mkr(ty)
    def chk(op, ty):
        bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i32': 32, 'i64': 64, 'u128': 128}[ty]
        def h(s, c, args, mem, p, dty, site):
            a, b = rd(s, args[0], mem), rd(s, args[1], mem)
            val = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            def ov(x):
                if x.op == 'lit': return lbool(not 0 <= x.a[1] < 1 << bits)
                return atom_bool(mk('call', 'ovf:' + ty, x))
            bad = lt(a, b, True) if op == 'sub' and ty[0] == 'u' else lift1(ov, val)
            return ite(bad, NONE(), SOME(val)), mem, p
        return h
    for op in ('add', 'sub', 'mul'): H['core::num::<impl %s>::checked_%s' % (ty, op)] = chk(op, ty)
    def sat(op, ty):
        bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i32': 32, 'i64': 64, 'u128': 128}[ty]
        def h(s, c, args, mem, p, dty, site):
            a, b = rd(s, args[0], mem), rd(s, args[1], mem)
            val = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            def ov(x):
                if x.op == 'lit': return lbool(not 0 <= x.a[1] < 1 << bits)
                return atom_bool(mk('call', 'ovf:' + ty, x))
            bad = lt(a, b, True) if op == 'sub' and ty[0] == 'u' else lift1(ov, val)
            return ite(bad, lint(0) if op == 'sub' else lint((1 << bits) - 1), val), mem, p
        return h
    for op in ('add', 'sub', 'mul'): H['core::num::<impl %s>::saturating_%s' % (ty, op)] = sat(op, ty)
@reg('core::num::<impl u64>::pow', 'core::num::<impl u32>::pow', 'core::num::<impl usize>::pow')
def h_pow(s, c, args, mem, p, dty, site):
    a, b = rd(s, args[0], mem), rd(s, args[1], mem)
    def f(x, y):
        if x.op == 'lit' and y.op == 'lit': return lint(x.a[1] ** y.a[1])
        return mk('call', 'pow', x, y)
    r = lift(f, (a, b))
    ty = c['d'].split('<impl ')[1].split('>')[0]
    bits = {'u64': 64, 'u32': 32, 'usize': 64}[ty]
    def ov(x):
        if x.op == 'lit': return lbool(not 0 <= x.a[1] < 1 << bits)
        return atom_bool(mk('call', 'ovf:' + ty, x))
    bad = b_and(p, lift1(ov, r))
    if bad is not FALSE: ev(s, 'Overflow(Pow)', bad, site, [a, b])
    return r, mem, p
def h_call(name, boolean=False):
    def h(s, c, args, mem, p, dty, site):
        xs = [full(s, a, mem) for a in args]
        def f(*ys):
            t = mk('call', name, *ys)
            return atom_bool(t) if boolean else t
        r = lift(f, xs)
        if not boolean and dty is not None:
            t = s.p.types[dty]
            if t['k'] == 'adt' and t['e']:
                def g(l):
                    d = mk('disc', l)
                    if l.op == 'call' and d not in DOM: DOM[d] = s.p.dom(dty)
                    if l.op == 'call' and l not in tm.ENUMTY: tm.ENUMTY[l] = s.tyname(dty)
                    return l
                r = lift1(g, r)
        return r, mem, p
    return h
@reg('core::str::<impl str>::replace', 'std::str::<impl str>::replace')
def h_replace(s, c, args, mem, p, dty, site):
    xs = [rd(s, args[0], mem), pat_of(s, args[1], mem, p, site), rd(s, args[2], mem)]
    def f(a, b, r):
        if a.op == 'lit' and b.op == 'lit' and r.op == 'lit': return lstr(a.a[1].replace(b.a[1], r.a[1]))
        return mk('call', 'replace', a, b, r)
    return lift(f, xs), mem, p
H['std::str::<impl str>::to_lowercase'] = pure(lambda s, x: lift1(lambda l: lstr(l.a[1].lower()) if l.op == 'lit' else mk('call', 'lower', l), x))
H['std::str::<impl str>::to_uppercase'] = pure(lambda s, x: lift1(lambda l: lstr(l.a[1].upper()) if l.op == 'lit' else mk('call', 'upper', l), x))
H['std::str::<impl str>::to_ascii_lowercase'] = pure(lambda s, x: lift1(lambda l: lstr(l.a[1].lower()) if l.op == 'lit' else mk('call', 'asciilower', l), x))
H['std::str::<impl str>::to_ascii_uppercase'] = pure(lambda s, x: lift1(lambda l: lstr(l.a[1].upper()) if l.op == 'lit' else mk('call', 'asciiupper', l), x))
@reg('core::str::<impl str>::bytes')
def h_bytes(s, c, args, mem, p, dty, site):
    def f(l):
        if l.op == 'lit': return mk_list([item(lint(b)) for b in l.a[1].encode()])
        return mk('call', 'bytes', l)
    return lift1(f, rd(s, args[0], mem)), mem, p
@reg('core::str::<impl str>::chars')
def h_chars(s, c, args, mem, p, dty, site):
    def f(l):
        if l.op == 'lit': return mk_list([item(lchar(b)) for b in l.a[1]])
        return mk('call', 'chars', l)
    return lift1(f, rd(s, args[0], mem)), mem, p
@reg('core::num::<impl u8>::is_ascii_lowercase', 'core::num::<impl u8>::is_ascii_uppercase', 'core::num::<impl u8>::is_ascii_digit')
def h_ascii(s, c, args, mem, p, dty, site):
    lo, hi = {'lowercase': (97, 122), 'uppercase': (65, 90), 'digit': (48, 57)}[c['d'].rsplit('_', 1)[1]]
    x = rd(s, args[0], mem)
    return b_and(b_not(lt(x, lint(lo))), b_not(lt(lint(hi), x))), mem, p
@reg('std::slice::<impl [T]>::join')
def h_join(s, c, args, mem, p, dty, site):
    return join(full(s, args[0], mem), rd(s, args[1], mem)), mem, p
def join(x, sep):
    def f(l, q):
        if q is lstr(''): return concat(l)
        if l.op == 'list' and l.a and l.a[0].op == 'item':
            # nothing precedes the first text, a separator each other one
            return cat(l.a[0].a[0], concat(mk_list(sum([emap1(sg, lambda x: [item(cat(q, x))]) for sg in l.a[1:]], []))))
        return mk('call', 'join', l, q)
    return lift(f, (x, sep))
def emap1(sg, f):
    if sg.op == 'item': return f(sg.a[0])
    if sg.op == 'if': return [seg_if(sg.a[0], sum([emap1(x, f) for x in sg.a[1:]], []))]
    if sg.op == 'for': return [seg_for(sg.a[0], sg.a[1], sum([emap1(x, f) for x in sg.a[2:]], []))]
    return [seg_for(sg.a[0], 1, f(elem(sg.a[0], 1)))]
def lmap_term(l, f):
    return mk_list(sum([emap1(sg, f) for sg in segs_of(l)], []))
def concat(l):
    def f(l):
        if l.op == 'list' and all(x.op == 'item' for x in l.a): return cat(*[x.a[0] for x in l.a]) if l.a else lstr('')
        return mk('call', 'concat', l)
    return lift1(f, l)
@reg('std::slice::<impl [T]>::concat')
def h_concat(s, c, args, mem, p, dty, site):
    return concat(full(s, args[0], mem)), mem, p
@reg('std::string::String::from_utf8', 'std::str::from_utf8')
def h_utf8(s, c, args, mem, p, dty, site):
    return res_call('utf8', full(s, args[0], mem)), mem, p

# ------------------------------------------------------------ equality
def opt_eq(a, b):
    return lift(lambda x, y: eq(x, y) if 'adt' in (x.op, y.op) or x is y else
                ite(guard_eq(disc(x), 0), guard_eq(disc(y), 0), b_and(guard_eq(disc(y), 1), eq(fld(x, 1, 0), fld(y, 1, 0)))), (a, b))
def h_eq(neg):
    def h(s, c, args, mem, p, dty, site):
        a, b = full(s, args[0], mem), full(s, args[1], mem)
        ta, tb = (s.p.strip_ref(c['a'][i]) if i < len(c['a']) else s.p.strip_ref(c['a'][0]) for i in (0, 1))
        key = s.p.eqs.get((s.p.types[ta]['s'], s.p.types[tb]['s']))
        if key is not None and s.p.fns[key]['cr'].startswith('svd') and not any(f.fn['key'] == key for f in s.stack):
            r, m2, g = s.call_body(s.p.fns[key], [a, b], mem, p)
            r = s.asbool(r)
        else:
            if s.p.types[ta].get('n') == s.p.types[tb].get('n') == 'std::option::Option': r = s.asbool(opt_eq(a, b))
            else: r = s.asbool(eq(a, b))
        return (b_not(r) if neg else r), mem, p
    return h
H['std::cmp::PartialEq::eq'] = h_eq(False)
H['std::cmp::PartialEq::ne'] = h_eq(True)
def h_ord(op):
    def h(s, c, args, mem, p, dty, site):
        a, b = rd(s, args[0], mem), rd(s, args[1], mem)
        t = s.p.types[s.p.strip_ref(c['a'][0])]
        if t['k'] not in ('uint', 'int', 'char'): return NotImplemented
        u = t['k'] == 'uint'
        return {'lt': lambda: lt(a, b, u), 'gt': lambda: lt(b, a, u), 'le': lambda: b_not(lt(b, a, u)), 'ge': lambda: b_not(lt(a, b, u))}[op](), mem, p
    return h
for o in ('lt', 'gt', 'le', 'ge'): H['std::cmp::PartialOrd::' + o] = h_ord(o)
@reg('std::cmp::Ord::max', 'std::cmp::max')
def h_max(s, c, args, mem, p, dty, site):
    a, b = rd(s, args[0], mem), rd(s, args[1], mem)
    return ite(lt(a, b), b, a), mem, p
@reg('std::cmp::Ord::min', 'std::cmp::min')
def h_min(s, c, args, mem, p, dty, site):
    a, b = rd(s, args[0], mem), rd(s, args[1], mem)
    return ite(lt(b, a), b, a), mem, p
@reg('std::cmp::Ord::cmp')
def h_cmp(s, c, args, mem, p, dty, site):
    return call('cmp', full(s, args[0], mem), full(s, args[1], mem)), mem, p

# ------------------------------------------------------------ mem
def default_of(s, ty, mem, p):
    t = s.p.types[ty]
    n = t.get('n', '')
    if t['k'] in ('int', 'uint'): return lint(0)
    if t['k'] == 'bool': return FALSE
    if t['k'] == 'tuple': return UNIT if not t['a'] else tup(*[default_of(s, x, mem, p) for x in t['a']])
    if n == 'std::option::Option': return NONE()
    if n in ('std::vec::Vec', 'std::collections::HashMap', 'indexmap::map::IndexMap', 'indexmap::IndexMap', 'std::collections::BTreeMap', 'std::collections::HashSet'): return EMPTYL
    if t['k'] == 'slice': return EMPTYL
    if t['s'] in ('std::string::String', 'str') : return lstr('')
    if t['k'] == 'ref': return default_of(s, t['t'], mem, p)
    key = s.p.default_of(ty)
    if key is not None:
        r, m2, g = s.call_body(s.p.fns[key], [], {}, TRUE)
        return s.deref_all(r, m2)
    return mk('call', 'default[%s]' % t['s'])
@reg('std::default::Default::default')
def h_default(s, c, args, mem, p, dty, site):
    return default_of(s, c['a'][0], mem, p), mem, p
@reg('std::mem::take')
def h_take(s, c, args, mem, p, dty, site):
    mem = dict(mem)
    v = rd(s, args[0], mem)
    wr(s, args[0], mem, default_of(s, c['a'][0], mem, p))
    return v, mem, p
@reg('std::mem::replace')
def h_repl(s, c, args, mem, p, dty, site):
    mem = dict(mem)
    v = rd(s, args[0], mem)
    wr(s, args[0], mem, args[1])
    return v, mem, p
@reg('std::mem::swap')
def h_swap(s, c, args, mem, p, dty, site):
    mem = dict(mem)
    a = rd(s, args[0], mem); b = rd(s, args[1], mem)
    wr(s, args[0], mem, b); wr(s, args[1], mem, a)
    return UNIT, mem, p
@reg('std::mem::drop', 'std::mem::forget')
def h_drop(s, c, args, mem, p, dty, site): return UNIT, mem, p

# ------------------------------------------------------------ panics
def h_panic(kind):
    def h(s, c, args, mem, p, dty, site):
        ev(s, kind, p, site, [full(s, a, mem) for a in args])
        return BOT, mem, FALSE
    return h
for n in ['std::option::unwrap_failed', 'std::result::unwrap_failed::unwrap_failed_inner', 'std::result::unwrap_failed', 'core::result::unwrap_failed']:
    H[n] = h_panic('unwrap'); HN[n] = h_panic('unwrap')
H['std::option::expect_failed'] = HN['std::option::expect_failed'] = h_panic('expect')
for n in ['core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_display', 'core::panicking::panic_explicit', 'std::rt::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic_nounwind', 'core::panicking::assert_failed', 'core::panicking::panic_str_2015',
          'core::panicking::unreachable_display', 'core::panicking::unreachable_default_msg', 'std::panicking::begin_panic', 'std::process::exit', 'std::process::abort']:
    H[n] = h_panic('panic')

# ------------------------------------------------------------ lists
def setv(s, a, mem, v):
    mem = dict(mem); wr(s, a, mem, v); return mem
for n in ['std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::collections::HashMap::<K, V>::new', 'indexmap::map::IndexMap::<K, V>::new', 'indexmap::IndexMap::<K, V>::new', 'std::collections::HashMap::<K, V>::with_capacity', 'std::collections::BTreeMap::<K, V>::new', 'std::iter::empty', 'std::collections::HashSet::<T>::new']:
    H[n] = lambda s, c, args, mem, p, dty, site: (EMPTYL, mem, p)
@reg('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::reserve')
def h_noop(s, c, args, mem, p, dty, site): return UNIT, mem, p
@reg('std::vec::Vec::<T, A>::push')
def h_push(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem)
    x = full(s, args[1], mem)
    if x is BOT: return UNIT, mem, p
    return UNIT, setv(s, args[0], mem, lcat(l, mk_list([item(x)]))), p
def lcat(a, b):
    def f(x, y): return mk_list(segs_of(x) + segs_of(y))
    # keep common prefixes: a guarded list is flattened into guarded segments
    return mk_list(segs_of(a) + segs_of(b))
@reg('std::vec::Vec::<T, A>::append')
def h_append(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem); o = rd(s, args[1], mem)
    mem = setv(s, args[0], mem, lcat(l, o))
    return UNIT, setv(s, args[1], mem, EMPTYL), p
@reg('std::iter::Extend::extend', 'std::vec::Vec::<T, A>::extend_from_slice')
def h_extend(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem); o = as_list(s, full(s, args[1], mem))
    if 'String' in c['n']: return UNIT, setv(s, args[0], mem, cat(l, call('concat', o))), p
    return UNIT, setv(s, args[0], mem, lcat(l, o)), p
@reg('std::vec::Vec::<T, A>::insert')
def h_insert(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem); i = rd(s, args[1], mem); x = full(s, args[2], mem)
    if i.op == 'lit' and i.a[1] == 0: return UNIT, setv(s, args[0], mem, lcat(mk_list([item(x)]), l)), p
    ev(s, 'insert', b_and(p, lt(s.length(l), i)), site, [l, i])
    return UNIT, setv(s, args[0], mem, call('insert', l, i, x)), p
@reg('std::vec::Vec::<T, A>::pop')
def h_pop(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem)
    def f(v):
        if v.op == 'list' and v.a and v.a[-1].op == 'item': return tup(SOME(v.a[-1].a[0]), mk_list(v.a[:-1]))
        if v.op == 'list' and not v.a: return tup(NONE(), EMPTYL)
        return tup(opt_last(v, s), init(v))
    r = lift1(f, l)
    return fld(r, 0, 0), setv(s, args[0], mem, fld(r, 0, 1)), p
@reg('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def h_clear(s, c, args, mem, p, dty, site):
    return UNIT, setv(s, args[0], mem, lstr('') if 'String' in c['d'] else EMPTYL), p
@reg('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove', 'std::vec::Vec::<T, A>::truncate', 'std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::drain', 'std::vec::Vec::<T, A>::split_off')
def h_vecop(s, c, args, mem, p, dty, site):
    l = full(s, args[0], mem)
    xs = [full(s, a, mem) for a in args[1:]]
    nm = c['d'].rsplit('::', 1)[1]
    if nm == 'remove': ev(s, 'remove', p, site, [l] + xs)
    if nm == 'drain' and xs[0].op == 'adt' and xs[0].a[0] == 'std::ops::RangeFull':
        return l, setv(s, args[0], mem, EMPTYL), p
    return call(nm, l, *xs), setv(s, args[0], mem, call(nm + '!', l, *xs)), p
@reg('std::vec::Vec::<T, A>::dedup_by', 'std::vec::Vec::<T, A>::dedup_by_key')
def h_dedupby(s, c, args, mem, p, dty, site):
    by = c['d'].endswith('dedup_by')
    v = rd(s, args[0], mem)
    f = lam(s, c, args[1], mem, p, site, 2 if by else 1)
    return UNIT, setv(s, args[0], mem, lift1(lambda l: mk('call', 'dedup_by' if by else 'dedup_by_key', l, f), v)), p
@reg('core::slice::<impl [T]>::swap', 'std::slice::<impl [T]>::swap', 'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def h_sliceop(s, c, args, mem, p, dty, site):
    xs = [full(s, a, mem) for a in args[1:]]; nm = c['d'].rsplit('::', 1)[1]
    l = rd(s, args[0], mem)
    ev(s, 'slice-index', b_and(p, b_not(b_and(lt(xs[0], s.length(l)), lt(xs[1], s.length(l))))) if nm == 'swap' else b_and(p, lt(s.length(l), xs[0])), site, [l] + xs)
    return UNIT, setv(s, args[0], mem, lift1(lambda v: mk('call', nm + '!', v, *xs), l)), p
@reg('std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::retain_mut')
def h_retain(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem)
    f = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        return [seg_if(s.asbool(r), [item(x)])], m2, q2
    r, mem, p = s.lmap(l, step, mem, p, site)
    return UNIT, setv(s, args[0], mem, r), p
@reg('std::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::reverse')
def h_reverse(s, c, args, mem, p, dty, site):
    return UNIT, setv(s, args[0], mem, rev(s, rd(s, args[0], mem))), p
H['std::vec::Vec::<T, A>::is_empty'] = H['core::slice::<impl [T]>::is_empty'] = H['std::collections::HashMap::<K, V, S, A>::is_empty'] = pure(lambda s, x: b_not(s.nonempty(as_list(s, x))))
H['std::vec::Vec::<T, A>::len'] = H['core::slice::<impl [T]>::len'] = H['std::iter::Iterator::count'] = H['std::iter::ExactSizeIterator::len'] = pure(lambda s, x: s.length(as_list(s, x)))
@reg('core::slice::<impl [T]>::contains')
def h_contains(s, c, args, mem, p, dty, site):
    l = full(s, args[0], mem); x = full(s, args[1], mem)
    def f(l, x):
        g = FALSE
        for sg in segs_of(l):
            if sg.op == 'item': g = b_or(g, eq(sg.a[0], x))
            elif sg.op == 'spl':
                d = s.depth_for(sg.a[0])
                g = b_or(g, s.exists(sg.a[0], d, eq(elem(sg.a[0], d), x)))
            elif sg.op == 'for' and len(sg.a) == 3 and sg.a[2].op == 'item':
                g = b_or(g, s.exists(sg.a[0], sg.a[1], eq(sg.a[2].a[0], x)))
            else: g = b_or(g, atom_bool(mk('call', 'contains', mk_list([sg]), x)))
        return g
    return lift(f, (l, x)), mem, p
@reg('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains', 'std::ops::RangeFrom::<Idx>::contains', 'std::ops::RangeTo::<Idx>::contains', 'std::ops::RangeToInclusive::<Idx>::contains')
def h_rcontains(s, c, args, mem, p, dty, site):
    r = rd(s, args[0], mem); x = rd(s, args[1], mem)
    def f(r):
        b = slice_bounds(r)
        if b is None: return atom_bool(mk('call', 'rcontains', r, x))
        g = b_not(lt(x, b[0]))
        if b[1] is not None: g = b_and(g, lt(x, b[1]))
        return g
    return lift1(f, r), mem, p
@reg('std::ops::RangeInclusive::<Idx>::new')
def h_rinew(s, c, args, mem, p, dty, site): return adt('std::ops::RangeInclusive', 0, args[0], args[1], FALSE), mem, p
H['std::ops::RangeInclusive::<Idx>::start'] = pure(lambda s, r: fld(r, 0, 0))
H['std::ops::RangeInclusive::<Idx>::end'] = pure(lambda s, r: fld(r, 0, 1))
H['core::slice::<impl [T]>::first'] = pure(lambda s, x: s.head(x))
H['core::slice::<impl [T]>::last'] = H['std::iter::Iterator::last'] = pure(lambda s, x: last(s, x))
def last(s, x):
    def f(v):
        if v.op == 'list' and v.a and v.a[-1].op == 'item': return SOME(v.a[-1].a[0])
        if v.op == 'list' and not v.a: return NONE()
        return opt_last(v, s)
    return lift1(f, x)
def split_last(s, x):
    def f(v):
        if v.op == 'list' and not v.a: return NONE()
        if v.op == 'list' and v.a[-1].op == 'item': return SOME(tup(v.a[-1].a[0], mk_list(v.a[:-1])))
        o = opt_last(v, s)
        return ite(guard_eq(disc(o, (0, 1)), 1), SOME(tup(fld(o, 1, 0), init(v))), NONE())
    return lift1(f, x)
H['core::slice::<impl [T]>::split_last'] = pure(split_last)
H['std::ops::RangeInclusive::<Idx>::into_inner'] = pure(lambda s, r: tup(fld(r, 0, 0), fld(r, 0, 1)))
@reg('core::slice::<impl [T]>::get')
def h_get(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem); i = rd(s, args[1], mem)
    return ite(lt(i, s.length(l)), SOME(s.index(l, i)), NONE()), mem, p
@reg('core::slice::<impl [T]>::starts_with')
def h_slstarts(s, c, args, mem, p, dty, site):
    a = rd(s, args[0], mem); b = full(s, args[1], mem)
    def f(x, y):
        if x.op == 'list' and y.op == 'list':
            return atom_bool(mk('call', 'lstarts', x, y))
        ys = [z.a[0] for z in y.a] if y.op == 'list' else (list(y.a[1]) if y.op == 'lit' and y.a[0] == 'y' else None)
        if ys is not None:
            try: return atom_bool(mk('call', 'bstarts', x, lstr(bytes(z if isinstance(z, int) else z.a[1] for z in ys).decode('utf-8'))))
            except Exception: pass
        return atom_bool(mk('call', 'bstarts', x, y))
    return lift(f, (a, b)), mem, p
@reg('core::slice::<impl [T]>::iter_mut', 'indexmap::map::IndexMap::<K, V, S>::values_mut')
def h_itermut(s, c, args, mem, p, dty, site): return imut(s, args[0], mem), mem, p
def imut(s, a, mem):
    # chase to the reference whose target is the list itself
    n = 0
    def one(r):
        n = 0
        while n < 8:
            b = s.load(('root', r.a[0], r.a[1]), mem)
            if b.op == 'mref': r = b; n += 1
            else: break
        root, path = r.a
        v = s.load(('root', root, path), mem)
        def go(sg):
            if sg.op == 'item':
                x = sg.a[0]
                return item(mk('mref', root, path + (('e', x),)))
            if sg.op == 'if': return seg_if(sg.a[0], [go(y) for y in sg.a[1:]])
            if sg.op == 'for': return seg_for(sg.a[0], sg.a[1], [go(y) for y in sg.a[2:]])
            if sg.op == 'spl':
                X = sg.a[0]; d = s.depth_for(X)
                return mk('for', X, d, item(mk('mref', root, path + (('e', elem(X, d)),))))
        return mk_list([go(y) for y in segs_of(v)])
    def f(l):
        if l.op == 'mref': return one(l)
        return l
    return lift1(f, a)
@reg('std::iter::IntoIterator::into_iter')
def h_intoiter(s, c, args, mem, p, dty, site):
    n = c['n']
    if args[0].op == 'mref' and ("<&'a mut " in n or "for &'a mut " in n): return imut(s, args[0], mem), mem, p
    t = s.p.types[c['a'][0]]
    if t['k'] == 'ref' and t['m']:
        u = s.p.types[t['t']]
        if u['k'] in ('slice', 'array') or u.get('n') in ('std::vec::Vec',): return imut(s, args[0], mem), mem, p
        return args[0], mem, p
    if args[0].op == 'mref': return args[0], mem, p
    return as_list(s, rd(s, args[0], mem)), mem, p

# iterator sources over maps
for n in ['indexmap::map::IndexMap::<K, V, S>::iter', 'std::collections::HashMap::<K, V, S, A>::iter', 'std::collections::BTreeMap::<K, V, A>::iter']: H[n] = h_ident
@reg('indexmap::map::IndexMap::<K, V, S>::insert', 'std::collections::HashMap::<K, V, S, A>::insert', 'std::collections::BTreeMap::<K, V, A>::insert')
def h_mapinsert(s, c, args, mem, p, dty, site):
    m = rd(s, args[0], mem)
    k, v = full(s, args[1], mem), full(s, args[2], mem)
    return opt_call('map_old', m, k), setv(s, args[0], mem, lcat(m, mk_list([item(tup(k, v))]))), p
@reg('std::collections::HashMap::<K, V, S, A>::get', 'indexmap::map::IndexMap::<K, V, S>::get', 'std::collections::BTreeMap::<K, V, A>::get')
def h_mapget(s, c, args, mem, p, dty, site):
    return opt_call('map_get', full(s, args[0], mem), full(s, args[1], mem)), mem, p
@reg('std::collections::HashMap::<K, V, S, A>::contains_key', 'indexmap::map::IndexMap::<K, V, S>::contains_key')
def h_maphas(s, c, args, mem, p, dty, site):
    return guard_eq(disc(opt_call('map_get', full(s, args[0], mem), full(s, args[1], mem)), (0, 1)), 1), mem, p

# a map is the list of its insertions; one made through an entry happens only if the key is new
@reg('std::collections::HashMap::<K, V, S, A>::entry', 'indexmap::map::IndexMap::<K, V, S>::entry', 'std::collections::BTreeMap::<K, V, A>::entry')
def h_entry(s, c, args, mem, p, dty, site):
    return tup(args[0], full(s, args[1], mem)), mem, p
ENTRY = ['std::collections::hash_map::Entry::<\'a, K, V, A>', 'std::collections::hash_map::Entry::<\'a, K, V>', 'std::collections::btree_map::Entry::<\'a, K, V, A>', 'indexmap::map::Entry::<\'a, K, V>']
@reg(*['%s::%s' % (e, m) for e in ENTRY for m in ('or_insert', 'or_insert_with', 'or_default', 'insert_entry')])
def h_orinsert(s, c, args, mem, p, dty, site):
    e = args[0]
    if e.op != 'adt': return NotImplemented
    m, k = fld(e, 0, 0), fld(e, 0, 1)
    nm = c['d'].rsplit('::', 1)[1]
    if nm == 'or_default': v = call('default')
    elif nm == 'or_insert_with': v, mem, p = s.apply(args[1], [], mem, p, site); v = full(s, v, mem)
    else: v = full(s, args[1], mem)
    x = tup(k, v) if nm == 'insert_entry' else call('if-new', k, v)
    return call('map_slot', k), setv(s, m, mem, lcat(rd(s, m, mem), mk_list([item(x)]))), p

@reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint", "std::iter::Iterator::size_hint")
def h_sizehint(s, c, args, mem, p, dty, site):
    a = args[0]
    try: l = as_list(s, full(s, a, mem))
    except Exception: return NotImplemented
    if not any(k in str(s.p.types[s.p.strip_ref(c['a'][0])].get('n')) for k in ('slice::Iter', 'vec::IntoIter')): return call('ext:size_hint', l), mem, p
    n = s.length(l)
    return tup(n, SOME(n)), mem, p
# ------------------------------------------------------------ iterators
@reg('std::iter::Iterator::next')
def h_next(s, c, args, mem, p, dty, site):
    a = args[0]
    n = 0
    while a.op == 'mref' and n < 8:
        v = s.load(('root', a.a[0], a.a[1]), mem)
        if v.op == 'mref': a = v; n += 1
        else: break
    if a.op != 'mref': 
        v = rd(s, a, mem)
        return s.head(as_list(s, v)), mem, p
    if v.op == 'iterone':
        mem = dict(mem); s.store(cur_of(s, a), mem, mk('iterdone'))
        return SOME(v.a[0]), mem, p
    if v.op == 'iternone': return NONE(), mem, p
    if v.op in ('iterdone', 'iterpart'):
        from .ev import NotForLoop
        raise NotForLoop()
    if s.loop_probe:
        pr = s.loop_probe[-1]
        if a.a[0] in pr['roots']:
            pr['hit'].append((a.a[0], a.a[1]))
            return opt_call('probe-next', v if v.op != 'mref' else sym('it')), mem, p
    l = as_list(s, v)
    mem = dict(mem); s.store(cur_of(s, a), mem, skip(s, l, lint(1)))
    return s.head(l), mem, p
@reg('std::iter::DoubleEndedIterator::next_back')
def h_next_back(s, c, args, mem, p, dty, site):
    v = rd(s, args[0], mem)
    if v.op in ('iterone', 'iternone', 'iterdone', 'iterpart') or s.loop_probe: return call('ext:next_back', v), mem, p
    def f(v):
        if v.op == 'list' and v.a and v.a[-1].op == 'item': return tup(SOME(v.a[-1].a[0]), mk_list(v.a[:-1]))
        if v.op == 'list' and not v.a: return tup(NONE(), EMPTYL)
        return tup(opt_last(v, s), init(v))
    r = lift1(f, as_list(s, v))
    return fld(r, 0, 0), setv(s, args[0], mem, fld(r, 0, 1)), p
def skip(s, l, n):
    def f(v, k):
        if k.op == 'lit':
            k = k.a[1]
            if v.op == 'list':
                sg = list(v.a)
                while k > 0 and sg and sg[0].op == 'item': sg.pop(0); k -= 1
                if k == 0 or not sg: return mk_list(sg)
                v = mk_list(sg)
            if v.op == 'call' and v.a[0] == 'skip': return mk('call', 'skip', v.a[1], lint(v.a[2].a[1] + k)) if v.a[2].op == 'lit' else mk('call', 'skip', v, lint(k))
            if k == 0: return v
            return mk('call', 'skip', v, lint(k))
        return mk('call', 'skip', v, k)
    return lift(f, (l, n))
def itsrc(s, a, mem):
    """the list an iterator argument still has to deliver"""
    v = a
    n = 0
    while v.op == 'mref' and n < 8: v = s.load(cur_of(s, v), mem); n += 1
    return as_list(s, v)
@reg('std::iter::Iterator::skip')
def h_skip(s, c, args, mem, p, dty, site): return skip(s, itsrc(s, args[0], mem), rd(s, args[1], mem)), mem, p
@reg('std::iter::Iterator::take', 'std::iter::Iterator::step_by', 'std::iter::Iterator::nth_')
def h_take(s, c, args, mem, p, dty, site):
    return call(c['d'].rsplit('::', 1)[1], full(s, itsrc(s, args[0], mem), mem), rd(s, args[1], mem)), mem, p
@reg('std::iter::Iterator::nth')
def h_nth(s, c, args, mem, p, dty, site):
    return s.head(skip(s, itsrc(s, args[0], mem), rd(s, args[1], mem))), mem, p
def rev(s, l):
    def seg(sg):
        if sg.op == 'item': return sg
        if sg.op == 'if': return seg_if(sg.a[0], [seg(x) for x in reversed(sg.a[1:])])
        if sg.op == 'spl': return mk('spl', sg.a[0].a[1] if sg.a[0].op == 'call' and sg.a[0].a[0] == 'rev' else mk('call', 'rev', sg.a[0]))
        L, d = sg.a[0], sg.a[1]
        R = mk('call', 'rev', L); e = s.depth_for(R)
        return seg_for(R, e, [subst(seg(x), {elem(L, d): elem(R, e)}) for x in reversed(sg.a[2:])])
    def f(v):
        if v.op == 'list': return mk_list([seg(x) for x in reversed(v.a)])
        if v.op == 'call' and v.a[0] == 'rev': return v.a[1]
        return mk('call', 'rev', v)
    return lift1(f, l)
@reg('std::iter::Iterator::rev')
def h_rev(s, c, args, mem, p, dty, site): return rev(s, itsrc(s, args[0], mem)), mem, p
@reg('std::iter::Iterator::chain')
def h_chain(s, c, args, mem, p, dty, site):
    b = args[1]
    return lcat(itsrc(s, args[0], mem), itsrc(s, b, mem)), mem, p
@reg('std::iter::once')
def h_once(s, c, args, mem, p, dty, site): return mk_list([item(args[0])]), mem, p
@reg('std::iter::Iterator::zip')
def h_zip(s, c, args, mem, p, dty, site):
    a = full(s, itsrc(s, args[0], mem), mem); b = full(s, itsrc(s, args[1], mem), mem)
    return lift(lambda x, y: zip2(s, x, y), (a, b)), mem, p
def alts(v):
    """alternatives of a list that is a choice between lists: [(guard, list)]"""
    if v.op != 'list' or len(v.a) < 2 or any(q.op != 'if' for q in v.a): return [(TRUE, v)]
    gs = [q.a[0] for q in v.a]
    for i in range(len(gs)):
        for j in range(i):
            if b_and(gs[i], gs[j]) is not FALSE: return [(TRUE, v)]
    r = [(q.a[0], mk_list(q.a[1:])) for q in v.a]
    rest = TRUE
    for g in gs: rest = b_and(rest, b_not(g))
    if rest is not FALSE: r.append((rest, EMPTYL))
    return r
def zip2(s, x, y):
    if x.op == 'list' and y.op == 'list' and all(q.op == 'item' for q in x.a + y.a):
        return mk_list([item(tup(i.a[0], j.a[0])) for i, j in zip(x.a, y.a)])
    ax, ay = alts(x), alts(y)
    if len(ax) > 1 or len(ay) > 1:
        out = []
        for g, p in ax:
            for h, q in ay:
                gh = b_and(g, h)
                if gh is not FALSE and gh is not BOT: out.append(seg_if(gh, segs_of(zip2(s, p, q))))
        return mk_list(out)
    def single(v):
        """(source list, element term, binder) of a plain map over one list"""
        if v.op == 'list' and len(v.a) == 1 and v.a[0].op == 'for' and len(v.a[0].a) == 3 and v.a[0].a[2].op == 'item':
            f = v.a[0]
            return f.a[0], f.a[2].a[0], f.a[1]
        if v.op == 'list': return None
        d = s.depth_for(v)
        return v, elem(v, d), d
    X, Y = single(x), single(y)
    if X and Y:
        (L, t, d), (M, u, e) = X, Y
        if length(L) is length(M):
            # same number of elements: one common index
            if L.op == 'call' and L.a[0] == 'upto': (L, t, d), (M, u, e), sw = (M, u, e), (L, t, d), True
            else: sw = False
            u = subst(u, {mk('ix', M, e): mk('ix', L, d), mk('elem', M, e): s.index(M, mk('ix', L, d)) if M is not L else elem(L, d)})
            return mk_list([seg_for(L, d, [item(tup(u, t) if sw else tup(t, u))])])
        if all(('ix', q) not in [(z.op, z.a[0]) for z in ixs(w)] for q, w in ((L, t), (M, u)) if not (q.op == 'call' and q.a[0] == 'upto')):
            Z = mk('call', 'zip', L, M)
            k = s.depth_for(Z)
            z = elem(Z, k)
            return mk_list([seg_for(Z, k, [item(tup(subst(t, {elem(L, d): fld(z, 0, 0)}), subst(u, {elem(M, e): fld(z, 0, 1)})))])])
    return mk('call', 'zip', x, y)
def ixs(t):
    st = [t]; seen = set(); out = []
    while st:
        q = st.pop()
        if q in seen: continue
        seen.add(q)
        if q.op == 'ix': out.append(q)
        st.extend(children(q))
    return out
@reg('std::iter::Iterator::enumerate')
def h_enum(s, c, args, mem, p, dty, site):
    l = itsrc(s, args[0], mem)
    def f(v):
        if v.op == 'list' and all(x.op == 'item' for x in v.a):
            return mk_list([item(tup(lint(i), x.a[0])) for i, x in enumerate(v.a)])
        if v.op == 'list' and len(v.a) == 1 and v.a[0].op == 'for' and len(v.a[0].a) == 3 and v.a[0].a[2].op == 'item':
            g = v.a[0]
            return mk_list([mk('for', g.a[0], g.a[1], item(tup(mk('ix', g.a[0], g.a[1]), g.a[2].a[0])))])
        if v.op == 'list': return mk('call', 'enumerate', v)
        d = s.depth_for(v)
        return mk_list([mk('for', v, d, item(tup(mk('ix', v, d), elem(v, d))))])
    return lift1(f, l), mem, p
def with_list(h):
    return h
@reg('std::iter::Iterator::map')
def h_map(s, c, args, mem, p, dty, site):
    f = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        if r is BOT: return [], m2, FALSE
        return [item(r)], m2, q2
    r, mem, p = s.lmap(itsrc(s, args[0], mem), step, mem, p, site)
    return r, mem, p
@reg('std::iter::Iterator::inspect')
def h_inspect(s, c, args, mem, p, dty, site):
    f = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        return [item(x)], m2, q2
    return s.lmap(itsrc(s, args[0], mem), step, mem, p, site)
@reg('std::iter::Iterator::filter')
def h_filter(s, c, args, mem, p, dty, site):
    return do_filter(s, args[0], args[1], mem, p, site)
def do_filter(s, a, f, mem, p, site):
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        if r is BOT: return [], m2, FALSE
        log_hit(s, x, s.asbool(r))
        return [seg_if(s.asbool(r), [item(x)])], m2, q2
    return s.lmap(itsrc(s, a, mem), step, mem, p, site)
def do_fmap(s, a, f, mem, p, site):
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        if r is BOT: return [], m2, FALSE
        g = guard_eq(disc(r, (0, 1)), 1)
        log_hit(s, x, g)
        return [seg_if(g, [item(fld(r, 1, 0))])], m2, q2
    return s.lmap(itsrc(s, a, mem), step, mem, p, site)
@reg('std::iter::Iterator::filter_map')
def h_fmap(s, c, args, mem, p, dty, site): return do_fmap(s, args[0], args[1], mem, p, site)
@reg('std::iter::Iterator::find_map')
def h_findmap(s, c, args, mem, p, dty, site):
    r, mem, p = do_fmap(s, args[0], args[1], mem, p, site)
    return s.head(r), mem, p
@reg('std::iter::Iterator::find')
def h_find(s, c, args, mem, p, dty, site):
    r, mem, p = do_filter(s, args[0], args[1], mem, p, site)
    return s.head(r), mem, p
@reg('std::iter::Iterator::any')
def h_any(s, c, args, mem, p, dty, site):
    r, mem, p = do_filter(s, args[0], args[1], mem, p, site)
    return s.nonempty(r), mem, p
@reg('std::iter::Iterator::all')
def h_all(s, c, args, mem, p, dty, site):
    f = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        if r is BOT: return [], m2, FALSE
        log_hit(s, x, b_not(s.asbool(r)))
        return [seg_if(b_not(s.asbool(r)), [item(x)])], m2, q2
    r, mem, p = s.lmap(itsrc(s, args[0], mem), step, mem, p, site)
    return b_not(s.nonempty(r)), mem, p
@reg('std::iter::Iterator::position')
def h_position(s, c, args, mem, p, dty, site):
    e, mem, p = h_enum(s, c, args[:1], mem, p, dty, site)
    f = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [fld(x, 0, 1)], m, q, site)
        if r is BOT: return [], m2, FALSE
        log_hit(s, fld(x, 0, 1), s.asbool(r))
        return [seg_if(s.asbool(r), [item(fld(x, 0, 0))])], m2, q2
    r, mem, p = s.lmap(e, step, mem, p, site)
    return s.head(r), mem, p
@reg('std::iter::Iterator::flat_map')
def h_flatmap(s, c, args, mem, p, dty, site):
    f = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        if r is BOT: return [], m2, FALSE
        return segs_of(opt_list(s, r)), m2, q2
    return s.lmap(itsrc(s, args[0], mem), step, mem, p, site)
def opt_list(s, r):
    def f(l):
        if l.op == 'adt' and l.a[0] == 'Option': return mk_list([item(x) for x in l.a[2:]])
        if mk('disc', l) in DOM and l.op != 'list':
            return mk_case(disc(l), {0: EMPTYL, 1: mk_list([item(fld(l, 1, 0))])})
        return as_list(s, l)
    return lift1(f, r)
@reg('std::iter::Iterator::flatten')
def h_flatten(s, c, args, mem, p, dty, site):
    def step(m, x, q): return segs_of(opt_list(s, x)), m, q
    return s.lmap(itsrc(s, args[0], mem), step, mem, p, site)
@reg('std::iter::Iterator::for_each')
def h_foreach(s, c, args, mem, p, dty, site):
    f = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [x], m, q, site)
        return [], m2, q2
    r, mem, p = s.lmap(itsrc(s, args[0], mem), step, mem, p, site)
    return UNIT, mem, p
@reg('std::iter::Iterator::fold')
def h_fold(s, c, args, mem, p, dty, site):
    f = args[2]
    s.nheap += 1
    root = ('h', s.nheap)
    mem = dict(mem); mem[root] = args[1]
    def step(m, x, q):
        r, m2, q2 = s.apply(f, [m[root], x], m, q, site)
        if r is BOT or q2 is FALSE: return [], m2, FALSE
        m2 = dict(m2); m2[root] = r
        return [], m2, q2
    r, mem, p = s.lmap(itsrc(s, args[0], mem), step, mem, p, site)
    mem = dict(mem); v = mem.pop(root)
    return v, mem, p
def try_loop(s, c, it, init, f, mem, p, site, dty):
    """folding that stops at the first failure"""
    n = s.p.types[s.p.strip_ref(dty)].get('n', '') if dty is not None else ''
    if not n.endswith(('Result', 'Option')): return NotImplemented
    bad, good = (1, 0) if n.endswith('Result') else (0, 1)
    s.nheap += 1
    root = ('h', s.nheap)
    mem = dict(mem); mem[root] = init
    def step(m, x, q):
        r, m2, q2 = f(m[root], x, m, q)
        if r is BOT or q2 is FALSE: return [], m2, FALSE
        r = s.deref_all(r, m2)
        b = guard_eq(disc(r, (0, 1)), bad)
        m2 = dict(m2); m2[root] = tm.assume_guard(fld(r, good, 0), b_not(b))
        return [seg_if(b, [item(fld(r, 1, 0) if bad else UNIT)])], m2, q2
    e, mem, p = s.lmap(itsrc(s, it, mem), step, mem, p, site)
    mem = dict(mem); v = mem.pop(root)
    F = s.head(e)
    return ite(guard_eq(disc(F, (0, 1)), 1), ERR(fld(F, 1, 0)) if bad else NONE(), (SOME if good else OK)(s.deref_all(v, mem))), mem, p
@reg('std::iter::Iterator::try_fold')
def h_tryfold(s, c, args, mem, p, dty, site):
    return try_loop(s, c, args[0], args[1], lambda a, x, m, q: s.apply(args[2], [a, x], m, q, site), mem, p, site, dty)
@reg('std::iter::Iterator::try_for_each')
def h_tryforeach(s, c, args, mem, p, dty, site):
    return try_loop(s, c, args[0], UNIT, lambda a, x, m, q: s.apply(args[1], [x], m, q, site), mem, p, site, dty)
@reg('std::iter::Iterator::min', 'std::iter::Iterator::max', 'std::iter::Iterator::sum', 'std::iter::Iterator::product')
def h_agg(s, c, args, mem, p, dty, site):
    nm = c['d'].rsplit('::', 1)[1]
    l = full(s, itsrc(s, args[0], mem), mem)
    return (opt_call if nm in ('min', 'max') else call)('it:' + nm, l), mem, p
@reg('std::iter::Iterator::min_by_key', 'std::iter::Iterator::max_by_key')
def h_aggk(s, c, args, mem, p, dty, site):
    nm = c['d'].rsplit('::', 1)[1]
    l = full(s, itsrc(s, args[0], mem), mem)
    return opt_call('it:' + nm, l, lam(s, c, args[1], mem, p, site)), mem, p
def lamarg(tag, i=0):
    """bound variable i of an uninterpreted higher-order call on elements of type `tag`"""
    return mk('elem', mk('sym', 'λ%d' % i, tag), 1)
def lam(s, c, f, mem, p, site, n=1):
    tag = s.basety(c['a'][0])
    es = [lamarg(tag, i) for i in range(n)]
    r, m2, p2 = s.apply(f, es, mem, p, site)
    return mk('call', 'lambda', s.deref_all(r, m2))
@reg('std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while', 'std::iter::Iterator::map_while')
def h_tw(s, c, args, mem, p, dty, site):
    nm = c['d'].rsplit('::', 1)[1]
    return call(nm, full(s, itsrc(s, args[0], mem), mem), lam(s, c, args[1], mem, p, site)), mem, p
@reg('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def h_collect(s, c, args, mem, p, dty, site):
    l = full(s, itsrc(s, args[0], mem), mem)
    return collect(s, l, dty if dty is not None else c['a'][-1]), mem, p
def collect(s, l, ty):
    t = s.p.types[ty]
    n = t.get('n')
    if n in ('std::result::Result', 'std::option::Option'):
        isres = n.endswith('Result')
        bad = 1 if isres else 0; good = 0 if isres else 1
        def emap(sg, f):
            if sg.op == 'item': return f(sg.a[0])
            if sg.op == 'if': return [seg_if(sg.a[0], sum([emap(y, f) for y in sg.a[1:]], []))]
            if sg.op == 'for': return [seg_for(sg.a[0], sg.a[1], sum([emap(y, f) for y in sg.a[2:]], []))]
            if sg.op == 'spl':
                X = sg.a[0]; d = s.depth_for(X)
                return [seg_for(X, d, f(elem(X, d)))]
        errs = []; oks = []
        for sg in segs_of(l):
            errs += emap(sg, lambda x: [seg_if(guard_eq(disc(x, (0, 1)), bad), [item(fld(x, 1, 0) if isres else UNIT)])])
            oks += emap(sg, lambda x: [item(fld(x, good, 0))])
        errs = [e for e in errs if not any(y is BOT for y in walkseg(e))]
        F = s.head(mk_list(errs))
        inner = collect(s, mk_list(oks), t['a'][0])
        okv = OK(inner) if isres else SOME(inner)
        if F.op == 'adt' and F.a[1] == 0: return okv
        g = guard_eq(disc(F, (0, 1)), 1)
        return ite(g, ERR(fld(F, 1, 0)) if isres else NONE(), okv)
    if t['s'] == 'std::string::String':
        return concat(l)
    if n in ('std::collections::HashSet', 'std::collections::BTreeSet', 'std::collections::BTreeMap'): return call('collect:' + n, l)
    return l
def walkseg(e):
    if e.op == 'item': yield e.a[0]
    elif e.op in ('if', 'for'):
        for y in e.a[(1 if e.op == 'if' else 2):]: yield from walkseg(y)

# ------------------------------------------------------------ sorting
def subterms(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(tm.children(x))
    return seen
def mksort(s, nm, l, k):
    """sorted list; a stable sort by a tuple sorts by its last component first, one by a condition moves the elements that meet it
    to the end, and the sort of a filtered list is the filtered sort"""
    K = k.a[1]
    vs = [x for x in subterms(K) if x.op == 'elem' and x.a[0].op == 'sym' and x.a[0].a[0] == 'λ0']
    if nm != 'sort' or len(set(vs)) > 1: return mk('call', nm, l, k)
    if not vs: return l
    e = vs[0]; lm = lambda b: mk('call', 'lambda', b)
    ls = list(leafset(K))
    if all(x.op == 'adt' and x.a[0] == '()' and x.a[1] == 0 and len(x.a) > 2 for x in ls) and len(set(len(x.a) for x in ls)) == 1:
        for i in reversed(range(len(ls[0].a) - 2)): l = mksort(s, nm, l, lm(fld(K, 0, i)))
        return l
    rev = all(x.op == 'adt' and x.a[0] == 'std::cmp::Reverse' for x in ls)
    B = fld(K, 0, 0) if rev else K
    if all(x is TRUE or x is FALSE for x in leafset(B)):
        f = lambda g: mk_list(sum([emap1(sg, lambda x: [seg_if(subst(g, {e: x}), [item(x)])]) for sg in segs_of(l)], []))
        a, b = f(b_not(B)), f(B)
        return lcat(b, a) if rev else lcat(a, b)
    if l.op == 'list' and len(l.a) == 1 and l.a[0].op == 'for':
        L, d = l.a[0].a[:2]; body = l.a[0].a[2:]
        def onlyif(sg):
            return sg.op == 'if' and len(sg.a) == 2 and (sg.a[1] is item(elem(L, d)) or onlyif(sg.a[1]))
        if len(body) == 1 and onlyif(body[0]) and mk('ix', L, d) not in subterms(body[0]):
            S = mksort(s, nm, L, k)
            if S.op == 'call': return mk_list([seg_for(S, d, [subst(body[0], {elem(L, d): elem(S, d)})])])
    return mk('call', nm, l, k)
@reg('std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort_by_cached_key', 'core::slice::<impl [T]>::sort_unstable_by_key')
def h_sortk(s, c, args, mem, p, dty, site):
    v = rd(s, args[0], mem)
    k = lam(s, c, args[1], mem, p, site)
    nm = 'usort' if 'unstable' in c['d'] else 'sort'
    return UNIT, setv(s, args[0], mem, lift1(lambda l: mksort(s, nm, l, k), v)), p
@reg('std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by')
def h_sortby(s, c, args, mem, p, dty, site):
    v = rd(s, args[0], mem)
    f = lam(s, c, args[1], mem, p, site, 2)
    nm = 'usort' if 'unstable' in c['d'] else 'sort'
    b = f.a[1]
    e0, e1 = (lamarg(s.basety(c['a'][0]), i) for i in (0, 1))
    # a comparator cmp(k(a), k(b)) is the key k, cmp(k(b), k(a)) its reverse; the two projections of a comparator by cases separate the arguments again
    if all(l.op == 'call' and l.a[0] == 'cmp' for l, _ in leaves(b)):
        x, y = (lift1(lambda l: l.a[i], b) for i in (1, 2))
        if subst(x, {e0: e1}) is y: f = mk('call', 'lambda', x)
        elif subst(y, {e0: e1}) is x: f = mk('call', 'lambda', adt('std::cmp::Reverse', 0, y))
    return UNIT, setv(s, args[0], mem, lift1(lambda l: mksort(s, nm, l, f), v)), p
@reg('std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def h_sort(s, c, args, mem, p, dty, site):
    v = rd(s, args[0], mem)
    return UNIT, setv(s, args[0], mem, lift1(lambda l: mksort(s, 'sort', l, mk('call', 'lambda', lamarg(s.basety(c['a'][0])))), v)), p

# ------------------------------------------------------------ roxmltree
def tagname(n): return lift1(lambda l: mk('call', 'tagname', l), n)
def hastag(n, x):
    """the node is an element of that name (other nodes have an empty one)"""
    return b_and(b_not(eq(tagname(n), lstr(''))), eq(tagname(n), x))
def is_elem(s, n): return b_not(eq(tagname(n), lstr('')))
H["roxmltree::Node::<'a, 'input>::children"] = pure(lambda s, n: call('children', n))
H["roxmltree::Node::<'a, 'input>::tag_name"] = pure(lambda s, n: call('xname', n))
H["roxmltree::ExpandedName::<'a, 'b>::name"] = pure(lambda s, x: lift1(lambda l: tagname(l.a[1]) if l.op == 'call' and l.a[0] == 'xname' else mk('call', 'xname.name', l), x))
@reg("roxmltree::Node::<'a, 'input>::has_tag_name")
def h_hastag(s, c, args, mem, p, dty, site):
    n = rd(s, args[0], mem); x = rd(s, args[1], mem)
    return hastag(n, x), mem, p
H["roxmltree::Node::<'a, 'input>::is_element"] = pure(is_elem)
H['roxmltree::NodeId::new'] = pure(lambda s, n: call('nodeid.new', n))
H["roxmltree::Node::<'a, 'input>::id"] = h_call('nodeid')
H["roxmltree::Node::<'a, 'input>::range"] = h_call('noderange')
H["roxmltree::Node::<'a, 'input>::attribute"] = pure(lambda s, n, a: opt_call('attr', n, a))
H["roxmltree::Node::<'a, 'input>::has_attribute"] = pure(lambda s, n, a: guard_eq(disc(opt_call('attr', n, a), (0, 1)), 1))
H["roxmltree::Node::<'a, 'input>::lookup_namespace_uri"] = pure(lambda s, n, a: opt_call('nsuri', n, a))
H["roxmltree::Node::<'a, 'input>::text"] = pure(lambda s, n: opt_call('text', n))
@reg("roxmltree::Node::<'a, 'input>::next_sibling_element")
def h_nse(s, c, args, mem, p, dty, site):
    def f(n):
        if n.op == 'fld' and n.a[0].op == 'first' and n.a[0].a[0].op == 'call' and n.a[0].a[0].a[0] == 'children':
            L, d, g = n.a[0].a
            if g is is_elem(s, elem(L, d)):   # the second of the elements whose first is given
                return s.head(skip(s, mk_list([seg_for(L, d, [seg_if(g, [item(elem(L, d))])])]), lint(1)))
        return opt_call('nextsib', n)
    return lift1(f, rd(s, args[0], mem)), mem, p
@reg("roxmltree::Node::<'a, 'input>::first_element_child")
def h_fec(s, c, args, mem, p, dty, site):
    n = rd(s, args[0], mem)
    def f(x):
        L = mk('call', 'children', x)
        d = s.depth_for(L)
        return s.head(mk_list([seg_for(L, d, [seg_if(is_elem(s, elem(L, d)), [item(elem(L, d))])])]))
    return lift1(f, n), mem, p
H["roxmltree::Document::<'input>::root"] = pure(lambda s, d: call('docroot', d))
H["roxmltree::Document::<'input>::root_element"] = pure(lambda s, d: call('docrootelem', d))
H["roxmltree::Document::<'input>::get_node"] = pure(lambda s, d, i: opt_call('getnode', d, i))
H["roxmltree::parse::<impl roxmltree::Document<'input>>::parse"] = pure(lambda s, t: res_call('xmlparse', t))
H["roxmltree::Document::<'input>::text_pos_at"] = h_call('textpos')
H["roxmltree::Node::<'a, 'input>::ancestors"] = pure(lambda s, n: call('ancestors', n))

# ------------------------------------------------------------ xmltree
@reg('xmltree::Element::new')
def h_elnew(s, c, args, mem, p, dty, site):
    t = s.p.adt_by_name['xmltree::Element']
    fs = []
    for nm, ty in t['v'][0]['f']:
        if nm == 'name': fs.append(rd(s, args[0], mem))
        elif nm in ('attributes', 'children'): fs.append(EMPTYL)
        else: fs.append(NONE())
    return adt('xmltree::Element', 0, *fs), mem, p

# ------------------------------------------------------------ misc
@reg('regex::regex::string::Regex::new', 'regex::Regex::new')
def h_rxnew(s, c, args, mem, p, dty, site):
    return OK(call('regex', rd(s, args[0], mem))), mem, p
from . import rx
def rxmatch(r, x):
    """the pattern is replaced by the canonical automaton of its language"""
    if r.op == 'call' and r.a[0] == 'regex' and r.a[1].op == 'lit':
        try: return atom_bool(mk('call', 'lang:' + rx.canon(r.a[1].a[1])[0], x))
        except rx.Unsupported: pass
    return atom_bool(mk('call', 'rxmatch', r, x))
@reg('regex::regex::string::Regex::is_match', 'regex::Regex::is_match')
def h_rxm(s, c, args, mem, p, dty, site):
    return lift(rxmatch, (rd(s, args[0], mem), rd(s, args[1], mem))), mem, p
H['std::iter::Iterator::peekable'] = h_ident
H['core::num::<impl u64>::leading_zeros'] = h_call('clz64')
H['core::num::<impl u32>::leading_zeros'] = h_call('clz32')
@reg('convert_case::Casing::with_boundaries')
def h_wb(s, c, args, mem, p, dty, site):
    # the boundaries are a set: every one is tried at every position
    b = full(s, args[1], mem)
    if b.op == 'list' and all(x.op == 'item' for x in b.a): b = mk_list(sorted(set(b.a), key=lambda x: show(x)))
    return call('with_boundaries', full(s, args[0], mem), b), mem, p
@reg('convert_case::Casing::to_case')
def h_tc(s, c, args, mem, p, dty, site): return call('to_case', full(s, args[0], mem), full(s, args[1], mem)), mem, p
@reg("convert_case::StateConverter::<'a, T>::to_case")
def h_tc2(s, c, args, mem, p, dty, site): return call('to_case', full(s, args[0], mem), full(s, args[1], mem)), mem, p

# ------------------------------------------------------------ more of std
def trimf(l, nm, py):
    if l.op == 'lit': return lstr(py(l.a[1]))
    if l.op == 'call' and l.a[0] in (nm, 'trim'): return l
    if l.op == 'call' and l.a[0] in ('trim_start', 'trim_end'): return mk('call', 'trim', l.a[1])
    return mk('call', nm, l)
def strfold(nm, py): return pure(lambda s, x: lift1(lambda l: trimf(l, nm, py), x))
WHITE = mk('call', 'charpred', atom_bool(mk('call', 'char:is_whitespace', mk('elem', sym('patchar'), 1))))
H['core::str::<impl str>::trim_start'] = strfold('trim_start', str.lstrip)
H['core::str::<impl str>::trim_end'] = strfold('trim_end', str.rstrip)
def trim_m(a, b, l, r):
    """a without the repeated prefix/suffix b"""
    while l and b and a.startswith(b): a = a[len(b):]
    while r and b and a.endswith(b): a = a[:-len(b)]
    return a
def strpred(b):
    """python predicate of a pattern term, if it is a decidable set of characters"""
    if b.op == 'call' and b.a[0] == 'charset' and b.a[1].op == 'list' and all(x.op == 'item' and x.a[0].op == 'lit' for x in b.a[1].a):
        cs = {x.a[0].a[1] for x in b.a[1].a}
        return lambda ch: ch in cs
    if b.op == 'call' and b.a[0] == 'charpred':
        v = mk('elem', sym('patchar'), 1)
        def f(ch):
            r = subst(b.a[1], {v: lchar(ch)})
            if r is TRUE: return True
            if r is FALSE: return False
            raise Unfold()
        return f
    return None
class Unfold(Exception): pass
for nm, l_, r_ in (('trim_start_matches', 1, 0), ('trim_end_matches', 0, 1), ('trim_matches', 1, 1)):
    def mkt(nm, l_, r_):
        def h(s, c, args, mem, p, dty, site):
            x, y = rd(s, args[0], mem), pat_of(s, args[1], mem, p, site)
            def f(a, b):
                if a.op == 'lit':
                    if b.op == 'lit': return lstr(trim_m(a.a[1], b.a[1], l_, r_))
                    pr = strpred(b)
                    if pr is not None:
                        try:
                            v = a.a[1]
                            while l_ and v and pr(v[0]): v = v[1:]
                            while r_ and v and pr(v[-1]): v = v[:-1]
                            return lstr(v)
                        except Unfold: pass
                if b is WHITE: return trimf(a, *{'trim_matches': ('trim', str.strip), 'trim_start_matches': ('trim_start', str.lstrip), 'trim_end_matches': ('trim_end', str.rstrip)}[nm])
                return mk('call', nm, a, b)
            return lift(f, (x, y)), mem, p
        return h
    H['core::str::<impl str>::' + nm] = mkt(nm, l_, r_)
for nm in ('rsplit', 'split_terminator', 'rsplit_terminator', 'matches', 'rmatches', 'match_indices', 'split_inclusive'):
    H['core::str::<impl str>::' + nm] = (lambda nm: lambda s, c, args, mem, p, dty, site: (call(nm, rd(s, args[0], mem), pat_of(s, args[1], mem, p, site)), mem, p))(nm)
for nm in ('splitn', 'rsplitn'):
    H['core::str::<impl str>::' + nm] = (lambda nm: lambda s, c, args, mem, p, dty, site: (call(nm, rd(s, args[0], mem), rd(s, args[1], mem), pat_of(s, args[2], mem, p, site)), mem, p))(nm)
for nm in ('split_whitespace', 'split_ascii_whitespace', 'lines'):
    H['core::str::<impl str>::' + nm] = h_call(nm)
for nm in ('trim_ascii', 'trim_ascii_start', 'trim_ascii_end'): H['core::str::<impl str>::' + nm] = h_call(nm)
H['std::str::<impl str>::repeat'] = h_call('strrepeat')
@reg('core::str::<impl str>::eq_ignore_ascii_case')
def h_eqic(s, c, args, mem, p, dty, site):
    lo = lambda x: lift1(lambda l: lstr(''.join(chr(ord(q) + 32) if 'A' <= q <= 'Z' else q for q in l.a[1])) if l.op == 'lit' else mk('call', 'asciilower', l), x)
    return eq(lo(rd(s, args[0], mem)), lo(rd(s, args[1], mem))), mem, p
@reg('std::str::<impl str>::replacen')
def h_replacen(s, c, args, mem, p, dty, site):
    xs = [rd(s, args[0], mem), pat_of(s, args[1], mem, p, site), rd(s, args[2], mem), rd(s, args[3], mem)]
    def f(a, b, r, n):
        if a.op == 'lit' and b.op == 'lit' and r.op == 'lit' and n.op == 'lit': return lstr(a.a[1].replace(b.a[1], r.a[1], n.a[1]))
        return mk('call', 'replacen', a, b, r, n)
    return lift(f, xs), mem, p
@reg('core::str::<impl str>::get')
def h_strget(s, c, args, mem, p, dty, site):
    a, r = rd(s, args[0], mem), rd(s, args[1], mem)
    return opt_call('ext:strget', a, r), mem, p
for nm, py in (('is_ascii_digit', lambda q: q in '0123456789'), ('is_ascii_hexdigit', lambda q: q in '0123456789abcdefABCDEF'), ('is_ascii_alphabetic', lambda q: q.isascii() and q.isalpha()),
               ('is_ascii_alphanumeric', lambda q: q.isascii() and q.isalnum()), ('is_ascii_uppercase', lambda q: 'A' <= q <= 'Z'), ('is_ascii_lowercase', lambda q: 'a' <= q <= 'z'),
               ('is_ascii_punctuation', None), ('is_ascii_whitespace', lambda q: q in ' \t\n\x0c\r'), ('is_ascii', str.isascii), ('is_whitespace', str.isspace), ('is_alphanumeric', None), ('is_alphabetic', None),
               ('is_numeric', None), ('is_uppercase', None), ('is_lowercase', None), ('is_control', None)):
    def mkc(nm, py):
        def f(l):
            if l.op == 'lit' and py and isinstance(l.a[1], str) and len(l.a[1]) == 1: return lbool(bool(py(l.a[1])))
            return atom_bool(mk('call', 'char:' + nm, l))
        return pure(lambda s, x: lift1(f, x))
    H['core::char::methods::<impl char>::' + nm] = H['std::char::methods::<impl char>::' + nm] = mkc(nm, py)
for ty in ('u8', 'u16', 'u32', 'u64', 'usize'):
    def mkd(ty):
        def h(s, c, args, mem, p, dty, site):
            a, b = rd(s, args[0], mem), rd(s, args[1], mem)
            return ite(lt(a, b), sub(b, a), sub(a, b)), mem, p
        return h
    H['core::num::<impl %s>::abs_diff' % ty] = mkd(ty)
    H['core::num::<impl %s>::trailing_zeros' % ty] = h_call('ctz' + ty[1:])
    H['core::num::<impl %s>::count_ones' % ty] = h_call('popcount')
    H['core::num::<impl %s>::is_power_of_two' % ty] = h_call('ispow2', True)
@reg('std::cmp::Ord::clamp')
def h_clamp(s, c, args, mem, p, dty, site):
    x, a, b = (rd(s, v, mem) for v in args)
    return ite(lt(x, a), a, ite(lt(b, x), b, x)), mem, p
@reg('std::cmp::PartialOrd::partial_cmp')
def h_pcmp(s, c, args, mem, p, dty, site):
    return SOME(call('cmp', full(s, args[0], mem), full(s, args[1], mem))), mem, p
@reg('std::cmp::Ordering::reverse')
def h_ordrev(s, c, args, mem, p, dty, site):
    return lift1(lambda l: mk('call', 'cmp', l.a[2], l.a[1]) if l.op == 'call' and l.a[0] == 'cmp' else mk('call', 'cmprev', l), rd(s, args[0], mem)), mem, p
@reg('std::cmp::Ordering::then')
def h_ordthen(s, c, args, mem, p, dty, site): return call('cmpthen', rd(s, args[0], mem), rd(s, args[1], mem)), mem, p
@reg('std::cmp::Ordering::then_with')
def h_ordthenw(s, c, args, mem, p, dty, site):
    r, mem, p = s.apply(args[1], [], mem, p, site)
    return call('cmpthen', rd(s, args[0], mem), r), mem, p

for nm in ('parent', 'parent_element', 'prev_sibling_element', 'prev_sibling', 'next_sibling', 'tail'):
    H["roxmltree::Node::<'a, 'input>::" + nm] = (lambda nm: pure(lambda s, n: opt_call('xml:' + nm, n)))(nm)
H["roxmltree::Node::<'a, 'input>::document"] = pure(lambda s, n: call('xml:document', n))
H["roxmltree::Node::<'a, 'input>::descendants"] = pure(lambda s, n: call('xml:descendants', n))
H["roxmltree::Node::<'a, 'input>::attributes"] = pure(lambda s, n: call('xml:attributes', n))
for nm in ('is_root', 'is_text', 'is_comment', 'is_pi', 'has_children', 'has_siblings'):
    H["roxmltree::Node::<'a, 'input>::" + nm] = h_call('xml:' + nm, True)
H["roxmltree::Node::<'a, 'input>::first_child"] = pure(lambda s, n: s.head(call('children', n)))
H["roxmltree::Node::<'a, 'input>::last_child"] = pure(lambda s, n: last(s, call('children', n)))
@reg("roxmltree::Node::<'a, 'input>::last_element_child")
def h_lec(s, c, args, mem, p, dty, site):
    def f(x):
        L = mk('call', 'children', x)
        d = s.depth_for(L)
        return last(s, mk_list([seg_for(L, d, [seg_if(is_elem(s, elem(L, d)), [item(elem(L, d))])])]))
    return lift1(f, rd(s, args[0], mem)), mem, p

@reg('std::iter::Iterator::partition')
def h_partition(s, c, args, mem, p, dty, site):
    a, m1, p1 = do_filter(s, args[0], args[1], mem, p, site)
    src = itsrc(s, args[0], mem)
    def step(m, x, q):
        r, m2, q2 = s.apply(args[1], [x], m, q, site)
        if r is BOT: return [], m2, FALSE
        return [seg_if(b_not(s.asbool(r)), [item(x)])], m2, q2
    b, m2, p2 = s.lmap(src, step, m1, p1, site)
    return tup(a, b), m2, p2
@reg('std::iter::zip')
def h_zipf(s, c, args, mem, p, dty, site): return h_zip(s, c, args, mem, p, dty, site)
@reg('std::iter::Iterator::max_by', 'std::iter::Iterator::min_by')
def h_aggby(s, c, args, mem, p, dty, site):
    nm = c['d'].rsplit('::', 1)[1]
    return opt_call('it:' + nm, full(s, itsrc(s, args[0], mem), mem), lam(s, c, args[1], mem, p, site, 2)), mem, p
@reg('std::iter::Iterator::rposition')
def h_rpos(s, c, args, mem, p, dty, site):
    return opt_call('rposition', full(s, itsrc(s, args[0], mem), mem), lam(s, c, args[1], mem, p, site)), mem, p
@reg('std::iter::DoubleEndedIterator::rfind')
def h_rfind(s, c, args, mem, p, dty, site):
    r, mem, p = do_filter(s, rev(s, itsrc(s, args[0], mem)), args[1], mem, p, site)
    return s.head(r), mem, p
for nm in ('windows', 'chunks', 'chunks_exact', 'rchunks', 'split_at'):
    H['core::slice::<impl [T]>::' + nm] = h_call('slice:' + nm)
H['core::slice::<impl [T]>::is_sorted'] = h_call('slice:is_sorted', True)
H['core::slice::<impl [T]>::ends_with'] = h_call('slice:ends_with', True)
@reg('core::slice::<impl [T]>::split_first')
def h_splitfirst(s, c, args, mem, p, dty, site):
    l = as_list(s, rd(s, args[0], mem)); h = s.head(l)
    return lift1(lambda v: v, ite(guard_eq(disc(h, (0, 1)), 1), SOME(tup(fld(h, 1, 0), skip(s, l, lint(1)))), NONE())), mem, p
@reg('core::slice::<impl [T]>::swap', 'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def h_swap2(s, c, args, mem, p, dty, site):
    nm = c['d'].rsplit('::', 1)[1]
    l = full(s, args[0], mem); xs = [rd(s, a, mem) for a in args[1:]]
    ev(s, 'index', p, site, [l] + xs)
    return UNIT, setv(s, args[0], mem, call('slice:' + nm, l, *xs)), p
@reg('std::collections::HashSet::<T, S, A>::insert', 'std::collections::HashSet::<T, S>::insert', 'std::collections::BTreeSet::<T, A>::insert', 'std::collections::BTreeSet::<T>::insert')
def h_setinsert(s, c, args, mem, p, dty, site):
    l = rd(s, args[0], mem); x = full(s, args[1], mem)
    r, m2, p2 = h_contains(s, c, args, mem, p, dty, site)
    return b_not(r), setv(s, args[0], m2, lcat(l, mk_list([item(x)]))), p2
for n in ('std::collections::HashSet::<T, S, A>::contains', 'std::collections::HashSet::<T, S>::contains', 'std::collections::BTreeSet::<T, A>::contains', 'std::collections::BTreeSet::<T>::contains'): H[n] = h_contains

# ------------------------------------------------------------ re-folding after a text is known
def _renorm(nm, f, boolean=False):
    def g(*xs):
        def h(*ys):
            if all(y.op == 'lit' for y in ys):
                try:
                    r = f(*[y.a[1] for y in ys])
                    if isinstance(r, bool): return lbool(r)
                    if isinstance(r, str): return lstr(r)
                    if isinstance(r, int): return lint(r)
                except Exception: pass
            return mk('call', nm, *ys)
        return lift(h, xs)
    tm.NORM['call:' + nm] = g
_renorm('trim', str.strip); _renorm('trim_start', str.lstrip); _renorm('trim_end', str.rstrip)
_renorm('lower', str.lower); _renorm('upper', str.upper)
_renorm('asciilower', lambda a: ''.join(chr(ord(q) + 32) if 'A' <= q <= 'Z' else q for q in a))
_renorm('asciiupper', lambda a: ''.join(chr(ord(q) - 32) if 'a' <= q <= 'z' else q for q in a))
_renorm('trim_start_matches', lambda a, b: trim_m(a, b, 1, 0)); _renorm('trim_end_matches', lambda a, b: trim_m(a, b, 0, 1)); _renorm('trim_matches', lambda a, b: trim_m(a, b, 1, 1))
_renorm('replace', lambda a, b, c: a.replace(b, c))
_renorm('strslice', lambda a, n, m=None: a.encode()[n:m].decode())
_renorm('strlen', lambda a: len(a.encode()))
_renorm('starts', lambda a, b: a.startswith(b)); _renorm('ends', lambda a, b: a.endswith(b)); _renorm('contains', lambda a, b: b in a)
def _pb(x):
    def f(l):
        if l.op == 'lit' and l.a[1] in ('true', 'false'): return OK(lbool(l.a[1] == 'true'))
        return mk('call', 'parse[bool]', l)
    return lift1(f, x)
tm.NORM['call:parse[bool]'] = _pb
for _nm in ('bitand', 'bitxor'):
    tm.NORM['call:' + _nm] = (lambda n: lambda x, y: lift(lambda p, q: mk('call', n, p, q) if p.id <= q.id else mk('call', n, q, p), (x, y)))(_nm)
for _ty in ('u8', 'u16', 'u32', 'u64', 'usize'):
    for _k in ('', '#16', '#2'): tm.NORM['call:parse[%s]%s' % (_ty, _k)] = (lambda n: lambda x: res_call(n, x))('parse[%s]%s' % (_ty, _k))
H['anyhow::Ok'] = pure(lambda s, x: OK(x))

# ------------------------------------------------------------ what an iterator that is used through a reference has left
def log_hit(s, x, g):
    if s.hitlog: s.hitlog[-1].append((x, g))
def after_first(segs, hits):
    """the elements behind the first one that satisfies a predicate (decided element by element while the list starts with known elements)"""
    if not segs: return EMPTYL
    if segs[0].op == 'item' and hits and hits[0][0] is segs[0].a[0]:
        g = hits[0][1]
        return mk_list(segs[1:]) if g is TRUE else ite(g, mk_list(segs[1:]), after_first(segs[1:], hits[1:]))
    return mk('iterpart')
def consuming(f, short):
    def h(s, c, args, mem, p, dty, site):
        a = args[0] if args else None
        t = s.p.types[c['a'][0]] if c.get('a') else None
        if a is None or a.op != 'mref' or not (short or (t and t['k'] == 'ref' and t['m'])): return f(s, c, args, mem, p, dty, site)
        segs = segs_of(itsrc(s, a, mem)) if short else None
        s.hitlog.append([])
        try: r, m2, q = f(s, c, args, mem, p, dty, site)
        finally: log = s.hitlog.pop()
        m2 = dict(m2)
        # the last run over an element counts (a body may be run more than once while its loop is summarised)
        s.store(cur_of(s, a), m2, after_first(segs, [(x, [g for y, g in log if y is x][-1]) for x in dict.fromkeys(y for y, _ in log)]) if short else mk('iterpart'))
        return r, m2, q
    return h
for nm in list(H):
    if nm.startswith(('std::iter::Iterator::', 'std::iter::DoubleEndedIterator::')):
        k = nm.rsplit('::', 1)[1]
        if k in ('find', 'find_map', 'any', 'all', 'position'): H[nm] = consuming(H[nm], True)
        elif k not in ('next', 'next_back', 'nth', 'by_ref', 'by_ref_', 'nth_', 'peekable', 'size_hint', 'rev', 'rfind', 'rposition'): H[nm] = consuming(H[nm], False)
