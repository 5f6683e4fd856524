"""Arrays: element names, offsets, expansion of arrays; index lists."""
from .data import *
from .model_misc import no_panic

KINDS = (('peripheral', 'PeripheralInfo', 'base_address', 'base_addresses', True), ('cluster', 'ClusterInfo', 'address_offset', 'address_offsets', False),
         ('register', 'RegisterInfo', 'address_offset', 'address_offsets', True), ('field', 'FieldInfo', None, 'bit_offsets', False))

def dims(c):
    """the two kinds of dimensions: (name, dimension, list iterated, text of the index, number of the element)"""
    D = sty(c, 'DimElement')
    base = sym('$dim')
    f = {k: c.F(base, D, k) for k in c.fields(D)}
    n = f['dim']; U = mk('call', 'upto', n)
    yield 'without explicit indices', c.struct(D, dict(f, dim_index=NONE())), U, call('dec', mk('ix', U, 1)), mk('ix', U, 1)
    X = sym('$indices')
    yield 'with explicit indices', c.struct(D, dict(f, dim=mk('call', 'len', X), dim_index=SOME(X))), X, elem(X, 1), mk('ix', X, 1)

def plug(t, x):
    return call('replace', call('replace', t, lstr('[%s]'), x), lstr('%s'), x)
def named(c, dim, idx):
    """the named index value with the number of this element, as an option"""
    dai = G(c, dim, 'DimElement', 'dim_array_index'); DA = sty(c, 'DimArrayIndex')
    def has(e):
        v = c.F(e, sty(c, 'EnumeratedValue'), 'value')
        return b_and(c.is_some(v), eq(call('dec', c.some(v)), idx))
    return ite(c.is_some(dai), c.first(c.F(c.some(dai), DA, 'values'), has), NONE())
def name_at(c, x, st, dim, idx):
    nv = named(c, dim, idx); EV = sty(c, 'EnumeratedValue')
    return ite(c.is_some(nv), c.F(c.some(nv), EV, 'name'), plug(G(c, x, st, 'name'), idx))
def descr_at(c, x, st, dim, idx):
    nv = named(c, dim, idx); EV = sty(c, 'EnumeratedValue')
    d = G(c, x, st, 'description')
    own = c.opt(d, lambda t: SOME(plug(t, idx)), NONE())
    nd = c.F(c.some(nv), EV, 'description')
    return ite(b_and(c.is_some(nv), c.is_some(nd)), SOME(c.some(nd)), own)
def loop(L, x): return mk_list([seg_for(L, 1, [item(x)])])
def offset_at(c, x, st, off, dim, i):
    inc = G(c, dim, 'DimElement', 'dim_increment')
    base = G(c, x, st, off) if off else c.F(G(c, x, st, 'bit_range'), sty(c, 'BitRange'), 'offset')
    return add(base, mul(i, inc))
def expanded(c, x, st, off, disp, dim, idx, i):
    ty = sty(c, st)
    fs = {k: c.F(x, ty, k) for k in c.fields(ty)}
    fs['name'] = name_at(c, x, st, dim, idx)
    fs['description'] = descr_at(c, x, st, dim, idx)
    if disp: fs['display_name'] = c.opt(fs['display_name'], lambda t: SOME(plug(t, idx)), NONE())
    if off: fs[off] = offset_at(c, x, st, off, dim, i)
    else:
        B = sty(c, 'BitRange')
        fs['bit_range'] = c.struct(B, dict(offset=offset_at(c, x, st, off, dim, i), width=c.F(fs['bit_range'], B, 'width'), range_type=c.variant([p for p in c.P.adt_by_name if p.endswith('::BitRangeType')][0], 'OffsetWidth')))
    return c.struct(ty, fs)

def check_expand(ck):
    c = ck.c
    ck.rule('the expansion of an array is the list, over its indices in order, of the element with the index text substituted in its texts, the i-th offset and everything else unchanged')
    for mod, st, off, offs, disp in KINDS:
        def names(mod=mod, st=st):
            for me, at in (('names', name_at), ('descriptions', descr_at)):
                f = client(c, mod, 'array_' + me, 'svd_rs::array::' + me, sty(c, st))
                for what, dim, L, idx, i in dims(c):
                    x = c.args(f)[0]
                    r = c.run(f, args=[x, dim])
                    ck.same(f, '%s of the elements of an array %s' % (me, what), leafs.as_list(c.E, r.ret), loop(L, at(c, x, st, dim, idx)), notes=r.notes)
        ck.guarded('names of %s arrays' % mod, names, anchor='svd_rs::array::names')
        def offsets(mod=mod, st=st, off=off, offs=offs):
            f = c.fn('svd_rs::%s::%s' % (mod, offs))
            for what, dim, L, idx, i in dims(c):
                x = c.args(f)[0]
                r = c.run(f, args=[x, dim])
                ck.same(f, 'offsets of the elements of an array %s' % what, leafs.as_list(c.E, r.ret), loop(L, offset_at(c, x, st, off, dim, i)), notes=r.notes)
        ck.guarded('offsets of %s arrays' % mod, offsets, anchor='svd_rs::%s::%s' % (mod, offs))
        def exp(mod=mod, st=st, off=off, disp=disp):
            f = c.fn('svd_rs::%s::expand' % mod)
            for what, dim, L, idx, i in dims(c):
                x = c.args(f)[0]
                r = c.run(f, args=[x, dim])
                ck.same(f, 'expansion of an array %s' % what, leafs.as_list(c.E, r.ret), loop(L, expanded(c, x, st, off, disp, dim, idx, i)), notes=r.notes)
        ck.guarded('expansion of %s arrays' % mod, exp, anchor='svd_rs::%s::expand' % mod)

def client(c, mod, me, name, ty):
    """the instance of a generic function for this element kind"""
    for f in c.P.by_name.get(name, ()):
        t = c.P.types[f['locals'][1]]
        while t['k'] == 'ref': t = c.P.types[t['t']]
        if t.get('n') == ty: return f
    raise Missing(name)

U32MAX = (1 << 32) - 1
def check_indexes(ck):
    c = ck.c
    D = sty(c, 'DimElement')
    ck.rule('index texts: the given list, or the decimal numbers below the dimension; a text n-m or A-C stands for the range, any other text for its comma-separated parts; '
            'a list is written as a range exactly when its texts are the decimal numbers of that range in order')
    def nxt():
        fs = [f for n, l in c.P.by_name.items() if n.startswith('<svd_rs::') and n.endswith('::Indexes<\'a> as std::iter::Iterator>::next') for f in l]
        if not fs: raise Missing('Indexes::next')
        f = fs[0]; r = c.run(f); x = c.args(f)[0]
        IX = [p for p in c.P.adt_by_name if p.split('<')[0].endswith('::Indexes')][0]
        i, dim, di = (c.F(x, IX, k) for k in ('i', 'dim', 'dim_index'))
        inside = b_and(lt(i, dim), b_not(eq(i, dim)))
        ck.same(f, 'nothing after the last index', r.ret, NONE(), under=eq(i, dim), notes=r.notes)
        ck.same(f, 'the text of the next index', r.ret, SOME(c.opt(di, lambda l: call('index', l, i), call('dec', i))), under=inside, notes=r.notes)
        ck.same(f, 'goes on with the index after it', r.out(1), c.struct(IX, dict(i=add(i, lint(1)), dim=dim, dim_index=di)), under=inside, notes=r.notes)
    ck.guarded('next index', nxt, anchor='Indexes::next', private=True)
    def idx():
        f = c.fn(D + '::indexes')
        for what, dim, L, t, i in dims(c):
            r = c.run(f, args=[dim])
            ck.same(f, 'every index once, in order, ' + what, leafs.as_list(c.E, r.ret), loop(L, t), notes=r.notes)
    ck.guarded('indexes', idx, anchor=D + '::indexes')
    def parse():
        f = c.fn(D + '::parse_indexes'); r = c.run(f); t = c.args(f)[0]
        sp = leafs.split_once(c.E, t, lstr('-')); a, b = fld(c.some(sp), 0, 0), fld(c.some(sp), 0, 1)
        na, nb = leafs.res_call('parse[u32]', a), leafs.res_call('parse[u32]', b)
        def filled(l): return ite(c.nonempty(l), SOME(l), NONE())
        def span(lo, hi, txt):
            R = leafs.rng(c.E, lo, add(hi, lint(1)))
            return c.fmap(R, lambda e: [item(txt(e))])
        nums = filled(span(c.okv(na), c.okv(nb), lambda e: call('dec', e)))
        # a single letter: the only byte of the text
        def only(x):
            B = call('bytes', x)
            return c.E.head(B), b_and(c.is_some(c.E.head(B)), b_not(c.is_some(c.E.head(leafs.skip(c.E, B, lint(1))))))
        (ha, oa), (hb, ob) = only(a), only(b)
        ca, cb = c.some(ha), c.some(hb)
        within = lambda x, lo, hi: b_and(b_not(lt(x, lint(ord(lo)))), b_not(lt(lint(ord(hi)), x)))
        case = b_or(b_and(within(ca, 'a', 'z'), within(cb, 'a', 'z')), b_and(within(ca, 'A', 'Z'), within(cb, 'A', 'Z')))
        letters = ite(b_and(b_and(oa, ob), case), filled(span(ca, cb, lambda e: char_text(c, e))), NONE())
        dash = atom_bool(call('contains', t, lstr('-')))
        want = ite(dash, ite(c.is_some(sp), ite(b_and(c.is_ok(na), c.is_ok(nb)), nums, letters), NONE()), filled(call('split', t, lstr(','))))
        ck.same(f, 'the indices the text stands for', r.ret, want, notes=r.notes)
        no_panic(ck, f, r, TRUE, 'reading indices')
    ck.guarded('parse_indexes', parse, anchor=D + '::parse_indexes')
    def asr():
        f = c.fn(D + '::indexes_as_range')
        for what, dim, L, t, i in dims(c):
            r = c.run(f, args=[dim])
            n = leafs.res_call('parse[u32]', t)
            good = b_and(c.is_ok(n), eq(call('dec', c.okv(n)), t))
            allgood = b_not(c.E.exists(L, 1, b_not(good)))
            nums = loop(L, c.okv(n))
            mn, mx = leafs.opt_call('it:min', nums), leafs.opt_call('it:max', nums)
            lo, hi = c.some(mn), c.some(mx)
            want = b_and(b_and(allgood, b_and(c.is_some(mn), c.is_some(mx))), eq(sub(hi, lo), sub(G(c, dim, 'DimElement', 'dim'), lint(1))))
            Z = leafs.zip2(c.E, nums, leafs.rng(c.E, lo, add(hi, lint(1))))
            want = b_and(want, c.forall(Z, lambda e: eq(fld(e, 0, 0), fld(e, 0, 1))))
            val = adt('std::ops::RangeInclusive', 0, lo, hi, FALSE)
            ck.same(f, 'the range of exactly these indices, ' + what, r.ret, ite(want, SOME(val), NONE()), notes=r.notes)
    ck.guarded('indexes_as_range', asr, anchor=D + '::indexes_as_range')

def char_text(c, e): return call('chstr', e)
