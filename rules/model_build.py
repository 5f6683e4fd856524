"""Builders and in-place modification of the data model (svd-rs)."""
import re
from .spec import *
from engine.leafs import res_call

LVL = 'svd_rs::ValidateLevel'
# struct -> (field -> treatment of an explicitly given empty text/list), fields whose empty value means "absent"
EMPTY_IS_ABSENT = {
    'PeripheralInfo': ['display_name', 'version', 'description', 'alternate_peripheral', 'group_name', 'prepend_to_name',
                       'append_to_name', 'header_struct_name'],
    'ClusterInfo': ['description', 'alternate_cluster', 'header_struct_name'],
    'FieldInfo': ['description'],
    'EnumeratedValues': ['name'],
    'EnumeratedValue': ['description'],
    'DimElement': ['dim_index', 'dim_name'],
}
# additionally in modifications
EMPTY_IS_ABSENT_MOD = {
    'Device': ['vendor', 'vendor_id', 'series', 'license_text', 'header_system_filename', 'header_definitions_prefix'],
    'PeripheralInfo': EMPTY_IS_ABSENT['PeripheralInfo'] + ['registers'],
    'RegisterInfo': ['display_name', 'description', 'alternate_group', 'alternate_register', 'fields'],
}
# a builder field that may be left out, with the value it then takes
S = lstr
DEFAULTS = {
    'Device': {'schema_version': S('1.1'), 'xmlns_xs': S('http://www.w3.org/2001/XMLSchema-instance')},
    'PeripheralInfo': {'interrupt': EMPTYL},
    'FieldInfo': {'enumerated_values': EMPTYL},
    'EnumeratedValues': {'values': EMPTYL},
}
# may be left out unless the level is strict
LAX_DEFAULTS = {'Device': {'version': S('1.0'), 'description': S(''), 'address_unit_bits': lint(8), 'width': lint(32)}}
STRUCTS = ['Device', 'Cpu', 'PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo', 'EnumeratedValues',
           'EnumeratedValue', 'DimElement', 'AddressBlock', 'Interrupt', 'RegisterProperties']

def names(c):
    """struct -> (struct path, builder path, module of inherent methods)"""
    r = {}
    for n, t in c.P.adt_by_name.items():
        m = re.match(r'svd_rs::(?:\w+::)?(\w+)$', n)
        if m and m.group(1) in STRUCTS: r.setdefault(m.group(1), {})['s'] = n
        if m and m.group(1).endswith('Builder') and m.group(1)[:-7] in STRUCTS: r.setdefault(m.group(1)[:-7], {})['b'] = n
    return r

def ftype(c, ty, f):
    t = c.P.adt_by_name[ty]
    return c.P.types[t['v'][0]['f'][c.P.field_index(ty, f)][1]]

def empty_to_none(c, x, ft):
    """Some("") / Some([]) become None"""
    inner = c.P.types[ft['a'][0]]
    v = c.some(x)
    if inner['s'].endswith('String'): g = eq(v, S(''))
    else:
        g = b_not(c.E.nonempty(v))
    return ite(b_and(c.is_some(x), b_not(g)), SOME(v), NONE())

def present(c, x): return ite(c.is_some(x), SOME(c.some(x)), NONE())

def struct_value(c, st, b, lvl):
    """(guard for success, value) of building struct `st` from builder term b"""
    nm = names(c)[st]
    sty, bty = nm['s'], nm.get('b', nm['s'])
    ok = TRUE
    fs = {}
    for f in c.fields(sty):
        x = c.F(b, bty, f)
        ft, bt = ftype(c, sty, f), ftype(c, bty, f)
        opt = lambda t: t.get('n') == 'std::option::Option'
        if f in EMPTY_IS_ABSENT.get(st, []): fs[f] = empty_to_none(c, x, ft)
        elif f in DEFAULTS.get(st, {}): fs[f] = ite(c.is_some(x), c.some(x), DEFAULTS[st][f])
        elif f == 'no_namespace_schema_location' and st == 'Device':
            sv = c.F(b, bty, 'schema_version')
            # the default schema file is fixed, independent of the version
            fs[f] = ite(c.is_some(x), c.some(x), S('CMSIS-SVD_Schema_1_1.xsd'))
        elif f in LAX_DEFAULTS.get(st, {}):
            strict = guard_eq(c.disc(lvl, LVL), c.vi(LVL, 'Strict'))
            fs[f] = ite(c.is_some(x), c.some(x), LAX_DEFAULTS[st][f])
            ok = b_and(ok, b_or(c.is_some(x), b_not(strict)))
        elif opt(bt) and not opt(ft):
            ok = b_and(ok, c.is_some(x)); fs[f] = c.some(x)
        elif opt(bt) and opt(ft): fs[f] = x
        elif ft.get('n') == 'svd_rs::RegisterProperties' and st != 'RegisterProperties':
            g, v = struct_value(c, 'RegisterProperties', x, lvl)
            g2 = valid(c, 'RegisterProperties', v, lvl)
            ok = b_and(ok, b_and(g, g2)); fs[f] = v
        else: fs[f] = x
    return ok, c.struct(sty, fs)

TRIVIAL = ('Cpu', 'DimElement', 'AddressBlock', 'Interrupt')   # kinds whose validation has no rule
MODE = ['call']
def valid(c, st, v, lvl):
    """the element passes validation at that level (as `validate` of the tree decides it; what that is, is another property)"""
    if MODE[0] == 'inline':
        from .model_valid import accepted
        return accepted(c, st, v, lvl)
    if st in TRIVIAL: return TRUE
    r = lift(lambda a, l: res_call('%s::validate' % names(c)[st]['s'], a, l), (v, lvl))
    return c.is_ok(r)
def opq(c):
    """functions kept symbolic: validation as a whole, or nothing"""
    if MODE[0] == 'inline': return []
    return [names(c)[k]['s'] + '::validate' for k in STRUCTS if k not in TRIVIAL]
def either(ck, f):
    """the obligations hold with validation kept symbolic, or (validation moved, split or merged) with everything inlined"""
    def inl():
        MODE[0] = 'inline'
        try: f()
        finally: MODE[0] = 'call'
    ck.either(f, inl)

def check_build(ck):
    c = ck.c
    ck.rule('builder rule: build(level) succeeds iff every mandatory property was given and the assembled element validates at that level; '
            'each property of the result is the given one')
    nm = names(c)
    for st in STRUCTS:
        if 'b' not in nm.get(st, {}):
            if st == 'RegisterProperties': bty = nm[st]['s']
            else: ck.viol(st, 'builder exists', 'no builder type for %s' % st); continue
        else: bty = nm[st]['b']
        def one(st=st, bty=bty):
            f = c.fn(bty + '::build')
            r = c.run(f, opq(c))
            b, lvl = c.args(f)
            ok, v = struct_value(c, st, b, lvl)
            okg = b_and(ok, valid(c, st, v, lvl))
            ck.same(f, 'succeeds exactly when mandatory parts are present and valid', c.is_ok(r.ret), okg, notes=r.notes)
            for fname in c.fields(nm[st]['s']):
                ck.same(f, 'property `%s` of the built element' % fname, c.F(c.okv(r.ret), nm[st]['s'], fname),
                        c.F(v, nm[st]["s"], fname), under=okg, notes=r.notes)
        ck.guarded('build of %s' % st, lambda: either(ck, one), anchor=bty + '::build')

SPECIAL_SETTERS = {('FieldInfoBuilder', 'bit_range'), ('FieldInfoBuilder', 'bit_offset'), ('FieldInfoBuilder', 'bit_width')}
NESTED_SETTERS = {('RegisterInfoBuilder', x): ('properties', x) for x in ('size', 'access', 'reset_value', 'reset_mask')}

def check_setters(ck):
    c = ck.c
    ck.rule('setter rule: a setter named after a property stores its argument in that property and changes nothing else')
    nm = names(c)
    n = 0
    for st in STRUCTS:
        bty = nm.get(st, {}).get('b')
        if bty is None: 
            if st != 'RegisterProperties': continue
            bty = nm[st]['s']
        for f in list(c.P.fns.values()):
            m = re.match(re.escape(bty) + r'::(\w+)$', f['name'])
            if not m or f['argc'] != 2 or m.group(1) in ('build', 'validate'): continue
            t0 = c.P.types[f['locals'][0]]
            if t0.get('n') != bty or c.P.types[f['locals'][1]].get('n') != bty: continue
            me = m.group(1); short = bty.split('::')[-1]
            if (short, me) in SPECIAL_SETTERS: continue
            n += 1
            def one(f=f, me=me, short=short, bty=bty):
                r = c.run(f)
                b, x = c.args(f)
                path = NESTED_SETTERS.get((short, me), (me,))
                if path[0] not in c.fields(bty): ck.unk(f, 'setter', 'no property of that name'); return
                pt = c.P.types[f['locals'][2]]
                if len(path) == 1:
                    ft = ftype(c, bty, path[0])
                    val = x if ft['s'] == pt['s'] else SOME(x)
                    if ft['s'] != pt['s'] and (ft.get('n') != 'std::option::Option' or c.P.types[ft['a'][0]]['s'] != pt['s']):
                        ck.unk(f, 'setter', 'argument is not of the property type'); return
                    want = {path[0]: val}
                else:
                    pty = nm['RegisterProperties']['s']
                    inner = c.F(b, bty, path[0])
                    want = {path[0]: c.struct(pty, {k: (x if k == path[1] else c.F(inner, pty, k)) for k in c.fields(pty)})}
                exp = c.struct(bty, {k: want.get(k, c.F(b, bty, k)) for k in c.fields(bty)})
                ck.same(f, 'stores its argument in `%s`, keeps the rest' % '.'.join(path), r.ret, exp, notes=r.notes)
            ck.guarded('setter', one, anchor=f['name'])
    if n < 90: ck.viol('svd_rs builders', 'setter count', 'only %d setters found, 90 expected' % n)
    # bit range setters of a field builder
    bty = nm['FieldInfo']['b']
    BR = 'svd_rs::BitRange'
    def bits():
        f = c.fn(bty + '::bit_range'); b, x = c.args(f)
        br, bo, bw = (c.F(b, bty, k) for k in ('bit_range', 'bit_offset', 'bit_width'))
        keep = {k: c.F(b, bty, k) for k in c.fields(bty)}
        f = c.fn(bty + '::bit_range'); r = c.run(f)
        ck.same(f, 'replaces any pending offset/width', r.ret, c.struct(bty, dict(keep, bit_range=SOME(x), bit_offset=NONE(), bit_width=NONE())), notes=r.notes)
        OW = c.variant('svd_rs::BitRangeType', 'OffsetWidth')
        for me, other, mine in (('bit_offset', 'bit_width', 'offset'), ('bit_width', 'bit_offset', 'width')):
            f = c.fn(bty + '::' + me); r = c.run(f); b, x = c.args(f)
            o = c.F(b, bty, other); own = c.F(b, bty, me)
            theirs = 'width' if mine == 'offset' else 'offset'
            hasr, haso = c.is_some(br), c.is_some(o)
            rng = lambda **k: c.struct(BR, k)
            upd = rng(**{mine: x, theirs: c.F(c.some(br), BR, theirs), 'range_type': c.F(c.some(br), BR, 'range_type')})
            new = rng(**{mine: x, theirs: c.some(o), 'range_type': OW})
            exp = c.struct(bty, dict(keep, **{
                'bit_range': ite(hasr, SOME(upd), ite(haso, SOME(new), NONE())),
                other: ite(hasr, o, ite(haso, NONE(), o)),
                me: ite(hasr, own, ite(haso, own, SOME(x)))}))
            ck.same(f, 'bit range from offset and width, whichever is given last', present_all(c, r.ret, bty), present_all(c, exp, bty), notes=r.notes)
    ck.guarded('bit range setters', bits, anchor=bty + '::bit_offset')

def present_all(c, v, bty):
    """compare bit_range (and, while it is absent, the pending parts)"""
    br = c.F(v, bty, 'bit_range')
    o, w = c.F(v, bty, 'bit_offset'), c.F(v, bty, 'bit_width')
    rest = [c.F(v, bty, k) for k in c.fields(bty) if k not in ('bit_range', 'bit_offset', 'bit_width')]
    return tup(present(c, br), ite(c.is_some(br), NONE(), present(c, o)), ite(c.is_some(br), NONE(), present(c, w)), *rest)

# setting derivedFrom drops what the element would otherwise inherit
CLEARED = {
    'PeripheralInfo': {'registers': NONE(), 'address_block': NONE(), 'default_register_properties': 'default'},
    'ClusterInfo': {'children': EMPTYL, 'default_register_properties': 'default'},
    'RegisterInfo': {'fields': NONE(), 'properties': 'default', 'datatype': NONE(), 'modified_write_values': NONE(), 'write_constraint': NONE(), 'read_action': 'keep'},
    'FieldInfo': {'modified_write_values': NONE(), 'write_constraint': NONE(), 'enumerated_values': EMPTYL, 'read_action': 'keep'},
    'EnumeratedValues': {'name': NONE(), 'usage': NONE(), 'values': EMPTYL},
}

def merged(c, st, old, b, lvl):
    nm = names(c)[st]
    sty, bty = nm['s'], nm.get('b', nm['s'])
    fs = {}
    ok = TRUE
    der = None
    if 'derived_from' in c.fields(sty): der = c.is_some(c.F(b, bty, 'derived_from'))
    for f in c.fields(sty):
        x, o = c.F(b, bty, f), c.F(old, sty, f)
        ft, bt = ftype(c, sty, f), ftype(c, bty, f)
        opt = lambda t: t.get('n') == 'std::option::Option'
        if ft.get('n') == 'svd_rs::RegisterProperties' and st != 'RegisterProperties':
            g, v = merged(c, 'RegisterProperties', o, x, lvl)
            ok2 = b_and(g, valid(c, 'RegisterProperties', v, lvl))
            ok = b_and(ok, b_or(der, ok2) if der is not None else ok2)
        elif f in EMPTY_IS_ABSENT_MOD.get(st, EMPTY_IS_ABSENT.get(st, [])):
            v = ite(c.is_some(x), empty_to_none(c, x, ft), o)
        elif opt(bt) and not opt(ft): v = ite(c.is_some(x), c.some(x), o)
        else: v = ite(c.is_some(x), present(c, x), o)
        if st == 'FieldInfo' and f == 'bit_range':
            bo, bw = c.F(b, bty, 'bit_offset'), c.F(b, bty, 'bit_width')
            BR = 'svd_rs::BitRange'
            v = c.struct(BR, dict(offset=ite(c.is_some(bo), c.some(bo), c.F(v, BR, 'offset')),
                                  width=ite(c.is_some(bw), c.some(bw), c.F(v, BR, 'width')), range_type=c.F(v, BR, 'range_type')))
        cl = CLEARED.get(st, {}).get(f)
        if cl is not None and der is not None:
            if isinstance(cl, str):
                pty = names(c)['RegisterProperties']['s']
                cl = c.struct(pty, {k: NONE() for k in c.fields(pty)}) if cl == 'default' else o
            v = ite(der, cl, v)
        fs[f] = v
    return ok, c.struct(sty, fs)

def check_from(ck):
    c = ck.c
    ck.rule('a builder made from an element holds exactly the properties of the element')
    nm = names(c)
    for st in STRUCTS:
        if 'b' not in nm.get(st, {}): continue
        sty, bty = nm[st]['s'], nm[st]['b']
        fs = c.P.by_name.get('<%s as std::convert::From<%s>>::from' % (bty, sty))
        if not fs: continue      # not offered for this kind
        def one(f=fs[0], sty=sty, bty=bty):
            r = c.run(f); x = c.args(f)[0]
            bf = c.fields(bty)
            for k in bf:
                got = c.F(r.ret, bty, k)
                if k not in c.fields(sty): want = NONE()
                else:
                    ft, bt = ftype(c, sty, k), ftype(c, bty, k)
                    want = c.F(x, sty, k) if ft['s'] == bt['s'] else SOME(c.F(x, sty, k))
                ck.same(f, 'property `%s` of the builder' % k, got, want, notes=r.notes)
        ck.guarded('builder from element', one, anchor=bty)

def check_modify(ck):
    c = ck.c
    ck.rule('modification rule: properties given in the modification replace the old ones, all others stay, a new derivedFrom drops inherited content, and the result is validated at the given level')
    nm = names(c)
    for st in STRUCTS:
        sty = nm[st]['s']
        def one(st=st, sty=sty):
            f = c.fn(sty + '::modify_from')
            r = c.run(f, opq(c))
            old, b, lvl = c.args(f)
            ok, v = merged(c, st, old, b, lvl)
            okg = b_and(ok, valid(c, st, v, lvl))
            ck.same(f, 'succeeds exactly when the merged element validates', c.is_ok(r.ret), okg, notes=r.notes)
            out = r.out(1)
            for fname in c.fields(sty):
                ck.same(f, 'property `%s` after modification' % fname, c.F(out, sty, fname), c.F(v, sty, fname), under=okg, notes=r.notes)
        ck.guarded('modify_from of %s' % st, lambda: either(ck, one), anchor=sty + '::modify_from')
