"""Writing, handling and expanding descriptions: no reachable panic on
descriptions whose positions are representable."""
from .data import *
from . import model_build as mb, model_panic as mp, model_flat as mf, model_paths as mx
from .model_expand import recursive

def bits_ok(c, br):
    """a bit range of at least one bit, all of them representable"""
    B = sty(c, 'BitRange'); o, w = c.F(br, B, 'offset'), c.F(br, B, 'width')
    return b_and(lt(lint(0), w), b_not(atom_bool(call('ovf:u32', sub(add(o, w), lint(1))))))
def in_word(c, br):
    """a bit range of at least one bit within 64 bits"""
    B = sty(c, 'BitRange'); o, w = c.F(br, B, 'offset'), c.F(br, B, 'width')
    return b_and(lt(lint(0), w), b_and(b_not(lt(lint(64), w)), b_and(lt(o, lint(64)), b_not(lt(lint(64), add(o, w))))))

def atoms(g):
    if g.op == 'case':
        yield g.a[0]
        for _, x in g.a[1]: yield from atoms(x)
        if g.a[2] is not None: yield from atoms(g.a[2])
MEM = 'ext:xmltree::Element::write_with_config[&mut std::vec::Vec<u8>]'
def written(e):
    """the event's condition, given that writing to memory succeeds and gives text"""
    g = e['guard']
    for at in list(atoms(g)):
        if at.op != 'disc' or at.a[0].op != 'call': continue
        x = at.a[0]
        if x.a[0] == MEM: g = assume(g, at, 0)
        elif x.a[0] == 'utf8' and any(y.op == 'call' and y.a[0].startswith(MEM) for y in subterms(x)): g = assume(g, at, 0)
    return dict(e, guard=g)

def part(x, y):
    """y is x and more: not representable where x is not"""
    (k, d), (m, e) = poly(x), poly(y)
    return 0 <= k <= m and all(0 < q <= e.get(a, 0) for a, q in d.items()) and all(q > 0 for q in e.values())
def excuse(r, c):
    """positions that the result has to hold, or an array's mask has to cover, but that are not representable: outside the property"""
    held = []
    def f(e, p):
        if e['kind'] in ('overflow:Add', 'overflow:Mul'):
            x = [at.a[1] for at, k in p if at.op == 'call' and at.a[0].startswith('ovf:') and k == 1]
            if x:
                if not held:
                    held.append(set())
                    for t in [r.ret] + [r.out(i + 1) for i in range(r.fn['argc'])]:
                        if isinstance(t, T): held[0].update(subterms(t))
                if x[-1] in held[0] or any(part(x[-1], y) for y in held[0] if y.op == 'add'): return 'where the value to return is not representable'
        if e['kind'] == 'overflow:Shl' and r.fn['name'].endswith('MaybeArray<svd_rs::FieldInfo>>::bitmask'):
            x = e['info'][1]; d = fld(c.args(r.fn)[0], 1, 1)
            if x.op == 'call' and x.a[0] == 'mul' and G(c, d, 'DimElement', 'dim_increment') in x.a[1:] and any(y.op == 'ix' for y in x.a[1:]): return 'where an element is outside 64 bits'
        return None
    return f
def inner(c, e):
    """the event's condition, given that bit ranges it computes with have a representable bit"""
    B = sty(c, 'BitRange'); g = e['guard']
    o = {x.a[0] for t in e['info'] or () if isinstance(t, T) for x in subterms(t) if x.op == 'fld' and c.F(x.a[0], B, 'offset') is x}
    w = {x.a[0] for t in e['info'] or () if isinstance(t, T) for x in subterms(t) if x.op == 'fld' and c.F(x.a[0], B, 'width') is x}
    for x in o & w: g = b_and(bits_ok(c, x), g)
    return dict(e, guard=g)
def examine(ck, f, r, under=TRUE, label=''):
    mp.report(ck, f, r, under, excuse(r, ck.c), lambda e: mp.judge(inner(ck.c, written(e))), label)

E = 'svd_encoder::'
def writers(c):
    for (m, ty), fs in sorted(c.byimpl.items()):
        if m in ('Encode::encode_with_config', 'EncodeChildren::encode_with_config'): yield from fs
        if m == 'FromStr::from_str' and ty.startswith(E): yield from fs
    for n in ('encode', 'encode_with_config'): yield c.fn(E + n)
def check_writing(ck):
    c = ck.c
    ck.rule('panic freedom of writing: in every writer, each overflow, slice, index, unwrap, assertion or explicit panic is unreachable for bit ranges of at least one representable bit and arrays of at least one element, whatever the configuration')
    ws = list(writers(c)); op = [f['name'] for f in ws]
    for f in ws:
        def one(f=f): examine(ck, f, c.run(f, ['none'] + [n for n in op if n != f['name']]), domain(c, f, c.args(f)))
        ck.guarded('panic sites of ' + f['name'], one, anchor=f['name'])

SR = 'svd_rs::'
def handlers(c):
    """the public functions of the data model, each once per type it is used at"""
    for f in sorted(c.P.fns.values(), key=lambda f: f['key']):
        if f['cr'] == 'svd_rs' and f['kind'] == 'fn' and f['pub'] and not f['derived'] and '{closure' not in f['name'] and '_::' not in f['name']: yield f
def check_handling(ck):
    c = ck.c
    ck.rule('panic freedom of the data model: in every public function, each overflow, slice, index, unwrap, assertion or explicit panic is unreachable for bit ranges of at least one representable bit (for masks: within 64 bits), an index list as long as the array, and positions that are representable')
    op = [x for x in mb.opq(c)] + [n for n in c.P.by_name if n.startswith(SR) and n.split('::')[-1] in ('validate_all', 'bitmask') or n == SR + 'DimElement::indexes_as_range']
    for f in handlers(c):
        def one(f=f): examine(ck, f, c.run(f, [n for n in op if n != f['name']]), domain(c, f, c.args(f)))
        ck.guarded('panic sites of ' + f['name'], one, anchor=f['name'])
def domain(c, f, a):
    n = f['name']; last = n.split('::')[-1]; under = TRUE
    for i in range(f['argc']):
        t = c.P.types[f['locals'][i + 1]]; t = c.P.types[t['t']] if t['k'] == 'ref' else t
        fi = sty(c, 'FieldInfo'); x = a[i]; arr = t['s'] == '%s<%s>' % (MA, fi)
        if t['s'] == sty(c, 'BitRange'): under = b_and(under, bits_ok(c, x))
        if t['s'] == fi or arr:
            ok = lambda y: (in_word if last == 'bitmask' else bits_ok)(c, G(c, y, 'FieldInfo', 'bit_range'))
            under = b_and(under, c.match(x, MA, {'Single': ok(fld(x, 0, 0)), 'Array': ok(fld(x, 1, 0))}) if arr else ok(x))
        if t['s'] == sty(c, 'DimElement'): under = b_and(under, lt(lint(0), G(c, x, 'DimElement', 'dim')))
        if t.get('n') == SR + 'dimelement::Indexes':
            # the list of indexes is as long as the array
            I = t['n']; i, d, o = (c.F(x, I, k) for k in ('i', 'dim', 'dim_index'))
            under = b_and(under, b_or(eq(i, d), b_and(lt(i, d), b_or(b_not(c.is_some(o)), lt(i, call('len', c.some(o)))))))
    if n == SR + 'BitRange::from_msb_lsb':
        m, l = a; under = b_and(b_not(lt(m, l)), b_not(atom_bool(call('ovf:u32', add(sub(m, l), lint(1))))))
    return under

X = 'svd_parser::expand::'
def check_expanding(ck):
    c = ck.c; P = c.P
    ck.rule('panic freedom of expansion: in the index, every derivation, the expansion of every level and the inheritance of properties, each overflow, slice, index, unwrap, assertion or explicit panic is unreachable, but for positions that are not representable')
    def runs():
        s = mf.Flat(c)
        for kind, (h, ps) in s.cuts.items():
            a = c.args(h)
            for what, x in ([('', a[ps['x']])] if kind == 'RC' else [(' (%s)' % w, x) for w, x in mf.forms(c, kind, None)]):
                yield h, s.run(h, args=[x if i == ps['x'] else None for i in range(h['argc'])] if kind != 'RC' else None, key='flat' + what), what
        yield s.root, s.run(s.root), ''
    def go():
        for h, r, what in runs(): examine(ck, h, r, label=what.strip() + (': ' if what else ''))
    ck.guarded('panic sites of the expansion', go, anchor='svd_parser::expand')
    def index():
        f = c.fn(mx.IDX + "::<'a>::create")
        cuts, summ = mx.index_cuts_checked(c, f)
        for q in [h for h, _, _, _ in cuts.values()] + [f]: examine(ck, q, c.run(q, ['none'], key='index', summ=summ))
    ck.guarded('panic sites of the index', index, anchor=mx.IDX + '::create')
    for st, fname, own, scope in mx.DERIVES:
        def derive(st=st, fname=fname, own=own):
            f = c.fn(X + fname); h = mx.deriver(c, f, own)
            for q in [h] + [f] * (f is not h): examine(ck, q, c.run(q, ['none', h['name'], mx.DF], key='derive'))
        ck.guarded('panic sites of the derivation of ' + st, derive, anchor=X + fname)
    def props():
        f = c.fn('svd_parser::expand_properties')
        recs, g = recursive(P, f)
        op = ['none'] + [h['name'] for h in recs]
        for q in recs + [f]: examine(ck, q, c.run(q, op, key='expprop'))
    ck.guarded('panic sites of expand_properties', props, anchor='svd_parser::expand_properties')
