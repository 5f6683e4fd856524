"""Single-or-array elements, bit ranges and queries (svd-rs)."""
from .data import *
from .model_panic import judge

KINDS = (('peripheral', 'PeripheralInfo'), ('cluster', 'ClusterInfo'), ('register', 'RegisterInfo'), ('field', 'FieldInfo'))
def client(c, mod, me): return c.fn('generic::%s::%s' % (mod, me))

def check_array(ck):
    c = ck.c
    ck.rule('an element that may be arrayed stands for its payload: reading and writing through it, its name and its description are those of the payload, in both forms')
    for tr in ('Deref::deref', 'DerefMut::deref_mut'):
        def one(tr=tr):
            fs = [f for n, l in c.P.by_name.items() if n == '<svd_rs::MaybeArray<T> as std::ops::%s>::%s' % tuple(tr.split('::')) for f in l]
            if not fs: raise Missing(tr + ' for MaybeArray')
            for f in fs:
                r = c.run(f); x = c.args(f)[0]
                ck.same(f, 'is the payload in both forms', r.ret, info(c, x), notes=r.notes)
        ck.guarded(tr, one, anchor='MaybeArray as ' + tr)
    for mod, st in KINDS:
        ty = sty(c, st)
        def forms(mod=mod, ty=ty):
            for me, arr in (('is_single', False), ('is_array', True)):
                f = client(c, mod, me); r = c.run(f); x = c.args(f)[0]
                ck.same(f, 'tells the form', r.ret, is_array(c, x) if arr else b_not(is_array(c, x)), notes=r.notes)
            f = client(c, mod, 'name'); r = c.run(f); x = info(c, c.args(f)[0])
            ck.same(f, 'name of the payload', r.ret, c.F(x, ty, 'name'), notes=r.notes)
            f = client(c, mod, 'description'); r = c.run(f); x = info(c, c.args(f)[0])
            ck.same(f, 'description of the payload', r.ret, c.F(x, ty, 'description'), notes=r.notes)
        ck.guarded('forms of ' + mod, forms, anchor='MaybeArray<%s>' % st, private=True)
        def conv(ty=ty):
            for me in ('single', 'array', 'maybe_array'):
                f = c.fn('%s::%s' % (ty, me)); r = c.run(f); a = c.args(f)
                want = {'single': lambda: single(c, a[0]), 'array': lambda: array(c, a[0], a[1]),
                        'maybe_array': lambda: c.opt(a[1], lambda d: array(c, a[0], d), single(c, a[0]))}[me]()
                ck.same(f, 'keeps the element (and the dimension)', r.ret, want, notes=r.notes)
        ck.guarded('conversions of ' + mod, conv, anchor=ty + '::single')
    ck.rule('name and description of every element kind are its own properties')
    for st in ('PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo', 'EnumeratedValue', 'Interrupt', 'Device'):
        ty = sty(c, st)
        def one(ty=ty, st=st):
            f = c.impl('Name::name', ty); r = c.run(f)
            ck.same(f, 'name', r.ret, c.F(c.args(f)[0], ty, 'name'), notes=r.notes)
            f = c.impl('Description::description', ty); r = c.run(f)
            d = c.F(c.args(f)[0], ty, 'description')
            ck.same(f, 'description', r.ret, SOME(d) if st == 'Device' else d, notes=r.notes)
        ck.guarded('accessors of ' + st, one, anchor=ty)
    ck.rule('a register or cluster in a list answers for its payload')
    for kind, st in (('Register', 'RegisterInfo'), ('Cluster', 'ClusterInfo')):
        def one(kind=kind, st=st):
            f = [g for n, l in c.P.by_name.items() if n == '<%s as std::convert::From<%s<%s>>>::from' % (RC, MA, sty(c, st)) for g in l]
            if not f: raise Missing('From<%s> for RegisterCluster' % kind)
            r = c.run(f[0])
            ck.same(f[0], 'wraps the element', r.ret, c.variant(RC, kind, c.args(f[0])[0]), notes=r.notes)
        ck.guarded('wrap ' + kind, one, anchor='RegisterCluster from ' + kind)
    def acc():
        for me in ('name', 'description', 'derived_from', 'address_offset'):
            f = c.fn(RC + '::' + me); r = c.run(f); x = c.args(f)[0]
            want = c.match(x, RC, {k: c.F(info(c, fld(x, c.vi(RC, k), 0)), sty(c, st), me) for k, st in (('Register', 'RegisterInfo'), ('Cluster', 'ClusterInfo'))})
            ck.same(f, me + ' of the payload', r.ret, want, notes=r.notes)
    ck.guarded('accessors of RegisterCluster', acc, anchor=RC)

def no_panic(ck, f, r, under, what):
    """every panic site of the analysed function is unreachable under `under`"""
    c = ck.c
    for e in r.events:
        g = b_and(under, e['guard'])
        v, p = judge(dict(e, guard=g))
        w = '%s: %s cannot happen' % (what, e['kind'])
        det = '%s at %s, reached when [%s]' % (e['kind'], e['sp'], ' & '.join('%s=%s' % (show(a, 0, 5), k) for a, k in p[-8:]))
        if v == 'safe': ck.ok(f, w)
        elif v == 'unclear': ck.unk(f, w, det)
        else: ck.viol(f, w, det)

BR, BT = 'svd_rs::BitRange', 'svd_rs::BitRangeType'
def check_bitrange(ck):
    c = ck.c
    ck.rule('bit ranges: lsb = offset, msb = offset + width - 1 for every range of at least one bit whose bits are representable, text [msb:lsb], constructors inverse to the accessors')
    ty = sty(c, 'BitRange'); bt = [p for p in c.P.adt_by_name if p.endswith('::BitRangeType')][0]
    f_ = lambda x, n: c.F(x, ty, n)
    def rng(off, w, v): return c.struct(ty, dict(offset=off, width=w, range_type=c.variant(bt, v)))
    def acc(me, pre, owner):
        f = c.fn('%s::%s' % (owner, me)); r = c.run(f); x = pre(c.args(f)[0])
        off, w = f_(x, 'offset'), f_(x, 'width')
        msb = sub(add(off, w), lint(1))
        want = {'lsb': off, 'bit_offset': off, 'bit_width': w, 'msb': msb, 'bit_range': cat(lstr('['), call('dec', msb), lstr(':'), call('dec', off), lstr(']'))}[me]
        # at least one bit, last bit representable
        ok = b_and(lt(lint(0), w), b_not(lt(lint((1 << 32) - 1), msb)))
        ck.same(f, me, r.ret, want, under=ok, notes=r.notes)
        no_panic(ck, f, r, ok, me)
    for me in ('lsb', 'msb', 'bit_range'): ck.guarded('BitRange::' + me, lambda me=me: acc(me, lambda x: x, ty), anchor=ty + '::' + me)
    fi = sty(c, 'FieldInfo')
    for me in ('lsb', 'msb', 'bit_offset', 'bit_width'): ck.guarded('FieldInfo::' + me, lambda me=me: acc(me, lambda x: c.F(x, fi, 'bit_range'), fi), anchor=fi + '::' + me)
    def ow():
        f = c.fn(ty + '::from_offset_width'); r = c.run(f); a = c.args(f)
        ck.same(f, 'offset and width as given', r.ret, rng(a[0], a[1], 'OffsetWidth'), notes=r.notes); no_panic(ck, f, r, TRUE, 'from_offset_width')
    ck.guarded('from_offset_width', ow, anchor=ty + '::from_offset_width')
    def ml():
        f = c.fn(ty + '::from_msb_lsb'); r = c.run(f); m, l = c.args(f)
        w = add(sub(m, l), lint(1))
        ok = b_and(b_not(lt(m, l)), b_not(lt(lint((1 << 32) - 1), w)))
        ck.same(f, 'offset lsb and width msb - lsb + 1', r.ret, rng(l, w, 'MsbLsb'), under=ok, notes=r.notes)
        no_panic(ck, f, r, ok, 'from_msb_lsb')
    ck.guarded('from_msb_lsb', ml, anchor=ty + '::from_msb_lsb')
    def fb():
        f = c.fn(ty + '::from_bit_range'); r = c.run(f); t = c.args(f)[0]
        parts = call('split', call('strslice', t, lint(1), sub(call('strlen', t), lint(1))), lstr(':'))
        nth = lambda k: c.E.head(leafs.skip(c.E, parts, lint(k)))
        num = lambda k: leafs.res_call('parse[u32]', c.some(nth(k)))
        m, l = c.okv(num(0)), c.okv(num(1))
        d = sub(m, l)
        ok = TRUE
        for g in (atom_bool(call('starts', t, lstr('['))), atom_bool(call('ends', t, lstr(']'))), c.is_some(nth(0)), c.is_ok(num(0)), c.is_some(nth(1)), c.is_ok(num(1)), b_not(c.is_some(nth(2))),
                  b_not(lt(m, l)), b_not(atom_bool(call('ovf:u32', add(d, lint(1)))))): ok = b_and(ok, g)
        want = ite(ok, SOME(rng(l, add(d, lint(1)), 'BitRange')), NONE())
        ck.same(f, 'accepted exactly for [msb:lsb] with msb not below lsb and a representable width, meaning these bits', r.ret, want, notes=r.notes)
        no_panic(ck, f, r, TRUE, 'from_bit_range')
    ck.guarded('from_bit_range', fb, anchor=ty + '::from_bit_range')

def check_queries(ck):
    c = ck.c
    ck.rule('each query has its documented value for every argument')
    AC = sty(c, 'Access'); EV = sty(c, 'EnumeratedValues'); FI = sty(c, 'FieldInfo'); RI = sty(c, 'RegisterInfo')
    def acc():
        for me, vs in (('can_read', ('ReadOnly', 'ReadWrite', 'ReadWriteOnce')), ('can_write', ('ReadWrite', 'ReadWriteOnce', 'WriteOnly', 'WriteOnce'))):
            f = c.fn(AC + '::' + me); r = c.run(f)
            ck.same(f, 'true exactly for ' + ', '.join(vs), r.ret, c.is_variant(c.args(f)[0], AC, *vs), notes=r.notes)
    ck.guarded('access predicates', acc, anchor=AC)
    US = sty(c, 'Usage')
    def usage(x):
        own = c.F(x, EV, 'usage')
        return ite(c.is_some(c.F(x, EV, 'derived_from')), NONE(), SOME(ite(c.is_some(own), c.some(own), c.variant(US, 'ReadWrite'))))
    def us():
        f = c.fn(EV + '::usage'); r = c.run(f)
        ck.same(f, 'the given usage, read-write if none is given, unknown when derived', r.ret, usage(c.args(f)[0]), notes=r.notes)
    ck.guarded('usage', us, anchor=EV + '::usage')
    def dv():
        f = c.fn(EV + '::default_value'); r = c.run(f); x = c.args(f)[0]
        V = sty(c, 'EnumeratedValue')
        L = c.F(x, EV, 'values')
        want = c.first(L, lambda e: c.opt(c.F(e, V, 'is_default'), lambda b: c.E.asbool(b), FALSE))
        ck.same(f, 'the first value marked as default', r.ret, want, notes=r.notes)
        f = c.fn(V + '::is_default'); r = c.run(f); x = c.args(f)[0]
        ck.same(f, 'marked as default', r.ret, c.opt(c.F(x, V, 'is_default'), lambda b: c.E.asbool(b), FALSE), notes=r.notes)
    ck.guarded('default value', dv, anchor=EV + '::default_value')
    for me in ('get_enumerated_values', 'get_mut_enumerated_values'):
        def ge(me=me):
            f = c.fn(FI + '::' + me); r = c.run(f); x, u = c.args(f)
            L = c.F(x, FI, 'enumerated_values')
            n = c.E.length(L)
            ok = b_or(guard_eq(n, 1), guard_eq(n, 2))
            want = ite(ok, c.first(L, lambda e: eqenum(c, usage(e), u, US)), NONE())
            ck.same(f, 'the first set serving that usage, when the field has one or two sets', r.ret, want, notes=r.notes)
        ck.guarded(me, ge, anchor=FI + '::' + me)
    def cm():
        CP = sty(c, 'Cpu')
        f = c.fn(CP + '::is_cortex_m'); r = c.run(f)
        ck.same(f, 'a CPU is a Cortex-M exactly when its name starts with CM', r.ret, atom_bool(call('starts', c.F(c.args(f)[0], CP, 'name'), lstr('CM'))), notes=r.notes)
    ck.guarded('is_cortex_m', cm, anchor='Cpu::is_cortex_m')
    ck.rule('the mask of a field has exactly its bits set, that of an array the bits of all its elements, that of a register the bits of all its fields')
    ones = lint((1 << 64) - 1)
    def fmask(x):
        br = c.F(x, FI, 'bit_range'); B = sty(c, 'BitRange')
        o, w = c.F(br, B, 'offset'), c.F(br, B, 'width')
        return norm('call', ['shl', norm('call', ['shr', ones, sub(lint(64), w)]), o])
    def fits(x):
        br = c.F(x, FI, 'bit_range'); B = sty(c, 'BitRange')
        o, w = c.F(br, B, 'offset'), c.F(br, B, 'width')
        return b_and(lt(lint(0), w), b_and(b_not(lt(lint(64), w)), lt(o, lint(64))))
    def amask(x, d=1):
        D = sty(c, 'DimElement')
        def arr():
            dm = dimof(c, x)
            L = leafs.as_list(c.E, call('upto', c.F(dm, D, 'dim')))
            e = elem(L, d)
            i = mk('ix', L, d)
            return norm('call', ['bitorall', mk_list([seg_for(L, d, [item(norm('call', ['shl', fmask(fld(x, 1, 0)), mul(c.F(dm, D, 'dim_increment'), i)]))])])])
        return c.match(x, MA, {'Single': fmask(fld(x, 0, 0)), 'Array': arr()})
    def m1():
        f = c.fn(FI + '::bitmask'); r = c.run(f); x = c.args(f)[0]
        ck.same(f, 'bits of the field', r.ret, fmask(x), under=fits(x), notes=r.notes)
        no_panic(ck, f, r, fits(x), 'mask of a field within 64 bits')
    ck.guarded('FieldInfo::bitmask', m1, anchor=FI + '::bitmask')
    def m2():
        f = [g for n, l in c.P.by_name.items() if n.endswith('<impl %s<%s>>::bitmask' % (MA, FI)) for g in l]
        if not f: raise Missing('Field::bitmask')
        f = f[0]; r = c.run(f); x = c.args(f)[0]
        ck.same(f, 'bits of all elements', r.ret, amask(x), under=fits(info(c, x)), notes=r.notes)
    ck.guarded('Field::bitmask', m2, anchor='Field::bitmask')
    def m3():
        f = c.fn(RI + '::bitmask'); r = c.run(f); x = c.args(f)[0]
        fs = c.F(x, RI, 'fields')
        L = c.some(fs)
        d = 1
        want = c.opt(fs, lambda L: norm('call', ['bitorall', mk_list([seg_for(L, d, [item(amask(elem(L, d)))])])]), lint(0))
        # masks joined by an operation under which equal bits cancel or carry are not their union
        bad = [l for x in subterms(r.ret) if x.op == 'fold' and not r.notes for i, lv, st in x.a[2] for l in leafset(st)
               if lv in l.a and l.op == 'call' and l.a[0] in ('bitxor', 'bitand') or l.op == 'add' and any(lv is y for y in subterms(l))]
        if bad: ck.viol(f, 'bits of all fields', 'joined as ' + show(bad[0])[:200])
        else: ck.same(f, 'bits of all fields', r.ret, want, notes=r.notes)
    ck.guarded('RegisterInfo::bitmask', m3, anchor=RI + '::bitmask')

def eqenum(c, a, b, ty):
    """option of an enum value equals Some(b)"""
    return lift1(lambda l: c.E.asbool(eq(l, SOME(b))), a)
