"""Writing XML elements (svd-encoder)."""
from .data import *
from .model_parse import KEYWORDS
from engine.leafs import res_call, opt_call, lamarg, tagname

EN = 'svd_encoder::Encode::encode_with_config'
CFG = 'svd_encoder::Config'
EL, XN = 'xmltree::Element', 'xmltree::XMLNode'
LEAF = list(KEYWORDS) + ['WriteConstraint', 'WriteConstraintRange', 'Cpu']   # their text does not depend on the configuration

# ------------------------------------------------------------ XML terms
def element(c, tag, children, attrs=EMPTYL):
    fs = {k: NONE() for k in c.fields(EL)}
    fs.update(name=lstr(tag), attributes=attrs, children=children)
    return c.struct(EL, fs)
def node(c, e): return c.variant(XN, 'Element', e)
def textnode(c, t): return c.variant(XN, 'Text', t)
def textel(c, tag, t): return node(c, element(c, tag, mk_list([item(textnode(c, t))])))
def enc(c, ty, x, cfg): return c.okv(res_call('%s[%s]' % (EN, ty), x, cfg))
def cfgf(c, cfg, name): return c.F(cfg, CFG, name)

# ------------------------------------------------------------ texts
def txt(c, x, cfg): return x
def dec(c, x, cfg): return lift1(lambda l: mk('call', 'dec', l), x)
def boolean(c, x, cfg): return ite(atom_bool(x), lstr('true'), lstr('false'))
BOUND = ['Underscore', 'Hyphen', 'Space', 'LowerUpper', 'UpperLower', 'Acronym']
CASES = {'Camel': 'Camel', 'Pascal': 'Pascal', 'Snake': 'Snake', 'Constant': 'UpperSnake'}
def change_case(c, x, fmt):
    IF = 'svd_encoder::IdentifierFormat'
    bs = mk_list(sorted([item(c.variant(ext(c, 'convert_case', 'Boundary'), b)) for b in BOUND], key=show))
    w = call('with_boundaries', x, bs)
    t = lambda k: call('replace', call('to_case', w, c.variant(ext(c, 'convert_case', 'Case'), k)), lstr('%S'), lstr('%s'))
    return ite(c.is_some(fmt), c.match(c.some(fmt), IF, {k: t(v) for k, v in CASES.items()}), x)
def ext(c, crate, name):
    for p in c.P.adt_by_name:
        if p.startswith(crate + '::') and p.split('::')[-1] == name: return p
    raise SpecGap('library type ' + name)
def fmt(spec, x): return lift1(lambda l: mk('call', 'fmt:' + spec, l), x)
def format_number(c, x, f):
    wide = lt(lint(0xffffffff), x)
    h = lambda p, n: fmt('%s_hex#%s' % (p, n), x)
    return c.match(f, 'svd_encoder::NumberFormat', {
        'UpperHex': h('upper', ''), 'UpperHex8': h('upper', '010'), 'UpperHex16': ite(wide, h('upper', '018'), h('upper', '010')),
        'LowerHex': h('lower', ''), 'LowerHex8': h('lower', '010'), 'LowerHex16': ite(wide, h('lower', '018'), h('lower', '010')),
        'Dec': dec(c, x, None), 'Bin': fmt('binary#', x)})
def ident(opt):
    f = lambda c, x, cfg: change_case(c, x, cfgf(c, cfg, opt))
    f.kind = 'ident'; return f
def num(opt):
    f = lambda c, x, cfg: format_number(c, x, cfgf(c, cfg, opt))
    f.kind = 'num'; return f
txt.kind = 'txt'; dec.kind = 'num'; boolean.kind = 'num'

# ------------------------------------------------------------ entries: tag, property -> list of segments
class Entry:
    def __init__(s, tag, field, segs, kind): s.tag = tag; s.field = field; s.segs = segs; s.kind = kind
def T(tag, field, f, opt=False):
    def segs(c, st, x, cfg):
        v = G(c, x, st, field)
        if opt: return [seg_if(c.is_some(v), [item(textel(c, tag, f(c, c.some(v), cfg)))])]
        return [item(textel(c, tag, f(c, v, cfg)))]
    return Entry(tag, field, segs, f.kind)
def O(tag, field, f): return T(tag, field, f, True)
def keyword(c, ty, tag, x):
    """<tag>word</tag>"""
    full = sty(c, ty)
    return node(c, element(c, tag, mk_list([item(textnode(c, c.match(x, full, {k: lstr(w) for k, w in KEYWORDS[ty].items()})))])))
def K(tag, field, ty, opt=True):
    def segs(c, st, x, cfg):
        v = G(c, x, st, field)
        if opt: return [seg_if(c.is_some(v), [item(keyword(c, ty, tag, c.some(v)))])]
        return [item(keyword(c, ty, tag, v))]
    return Entry(tag, field, segs, 'keyword')
def SUB(tag, field, ty, many=False, opt=True):
    """nested elements, written with the same configuration"""
    def segs(c, st, x, cfg):
        v = G(c, x, st, field)
        el = lambda y: item(node(c, enc(c, ty, y, cfg)))
        if many: return segs_of(c.fmap(v, lambda e: [el(e)]))
        if opt: return [seg_if(c.is_some(v), [el(c.some(v))])]
        return [el(v)]
    return Entry(tag, field, segs, 'sub')
def SUBS_OPT(tag, field, ty):
    def segs(c, st, x, cfg):
        v = G(c, x, st, field)
        return [seg_if(c.is_some(v), guarded(c.fmap(c.some(v), lambda e: [item(node(c, enc(c, ty, e, cfg)))])))]
    return Entry(tag, field, segs, 'sub')
def guarded(l): return guarded_segs(l) if l.op == 'case' else segs_of(l)
def WC():
    def segs(c, st, x, cfg):
        v = G(c, x, st, 'write_constraint')
        return [seg_if(c.is_some(v), [item(node(c, constraint(c, c.some(v))))])]
    return Entry('writeConstraint', 'write_constraint', segs, 'sub')
def constraint(c, v):
    W = sty(c, 'WriteConstraint')
    f = lambda k: fld(v, c.vi(W, k), 0)
    r = f('Range')
    R = lambda n: G(c, r, 'WriteConstraintRange', n)
    rng = node(c, element(c, 'range', mk_list([item(textel(c, 'minimum', dec(c, R('min'), None))), item(textel(c, 'maximum', dec(c, R('max'), None)))])))
    el = lambda n: element(c, 'writeConstraint', mk_list([item(n)]))
    return c.match(v, W, {'WriteAsRead': el(textel(c, 'writeAsRead', boolean(c, f('WriteAsRead'), None))),
                          'UseEnumeratedValues': el(textel(c, 'useEnumeratedValues', boolean(c, f('UseEnumeratedValues'), None))), 'Range': el(rng)})
def CPU():
    def segs(c, st, x, cfg):
        v = G(c, x, st, 'cpu')
        return [seg_if(c.is_some(v), [item(node(c, whole(c, 'Cpu', c.some(v), cfg)))])]
    return Entry('cpu', 'cpu', segs, 'sub')
def PROPS(field):
    """register properties, among the children"""
    def segs(c, st, x, cfg):
        v = G(c, x, st, field)
        return sum([e.segs(c, 'RegisterProperties', v, cfg) for e in TABLE['RegisterProperties'][1]], [])
    return Entry(None, field, segs, 'num')
def BITS():
    def segs(c, st, x, cfg):
        b = G(c, x, st, 'bit_range')
        off, w, ty = (G(c, b, 'BitRange', k) for k in ('offset', 'width', 'range_type'))
        o = cfgf(c, cfg, 'field_bit_range')
        BT = sty(c, 'BitRangeType')
        ty = ite(c.is_some(o), c.F(c.some(o), 'svd_encoder::config::FieldBitRangeFormat', '0'), ty)
        msb = sub(add(off, w), lint(1))
        d = lambda v: dec(c, v, None)
        g = lambda k: c.is_variant(ty, BT, k)
        return [seg_if(g('BitRange'), [item(textel(c, 'bitRange', cat(lstr('['), d(msb), lstr(':'), d(off), lstr(']'))))]),
                seg_if(g('MsbLsb'), [item(textel(c, 'lsb', d(off))), item(textel(c, 'msb', d(msb)))]),
                seg_if(g('OffsetWidth'), [item(textel(c, 'bitOffset', d(off))), item(textel(c, 'bitWidth', d(w)))])]
    return Entry(None, 'bit_range', segs, 'num')
def DIMINDEX():
    def segs(c, st, x, cfg):
        di = G(c, x, st, 'dim_index')
        r = opt_call('svd_rs::DimElement::indexes_as_range', x)
        rng = cat(dec(c, fld(c.some(r), 0, 0), cfg), lstr('-'), dec(c, fld(c.some(r), 0, 1), cfg))
        t = ite(c.is_some(r), rng, call('join', c.some(di), lstr(',')))
        return [seg_if(c.is_some(di), [item(textel(c, 'dimIndex', t))])]
    return Entry('dimIndex', 'dim_index', segs, 'txt')

# sorting
SO, DS, RS = 'svd_encoder::Sorting', 'svd_encoder::DerivableSorting', 'svd_encoder::RcSorting'
def srt(c, L, ty, key, sorting):
    """stable sort of a list by the configured key"""
    if L is EMPTYL: return L
    e = lamarg(ty)
    by = lambda k: lift1(lambda l: leafs.mksort(c.E, 'sort', l, mk('call', 'lambda', k)), L)
    off, name = key(e)
    return ite(c.is_some(sorting), c.match(c.some(sorting), SO, {'Offset': by(off), 'OffsetReversed': by(adt('std::cmp::Reverse', 0, off)), 'Name': by(name)}), L)
def derivable(c, L, ty, key, derived, ds):
    sorting = lambda v: fld(ds, c.vi(DS, v), 0)
    last = lcat(srt(c, c.filter(L, lambda e: b_not(derived(e))), ty, key, sorting('DeriveLast')), srt(c, c.filter(L, derived), ty, key, sorting('DeriveLast')))
    return c.match(ds, DS, {'Unchanged': srt(c, L, ty, key, sorting('Unchanged')), 'DeriveLast': last})
def lcat(*ls): return leafs.lcat(*ls)
def key_ma(c, st, off):
    def k(e):
        i = info(c, e)
        return off(i), G(c, i, st, 'name')
    return k
def rc_field(c, e, fr, fc):
    r, k = fld(e, c.vi(RC, 'Register'), 0), fld(e, c.vi(RC, 'Cluster'), 0)
    return c.match(e, RC, {'Register': G(c, info(c, r), 'RegisterInfo', fr), 'Cluster': G(c, info(c, k), 'ClusterInfo', fc)})
def sorted_peripherals(c, L, cfg):
    return derivable(c, L, 'svd_rs::MaybeArray<svd_rs::PeripheralInfo>', key_ma(c, 'PeripheralInfo', lambda i: G(c, i, 'PeripheralInfo', 'base_address')),
                     lambda e: c.is_some(G(c, info(c, e), 'PeripheralInfo', 'derived_from')), cfgf(c, cfg, 'peripheral_sorting'))
def sorted_rcs(c, L, cfg):
    s = cfgf(c, cfg, 'register_cluster_sorting')
    ty = 'svd_rs::RegisterCluster'
    key = lambda e: (rc_field(c, e, 'address_offset', 'address_offset'), rc_field(c, e, 'name', 'name'))
    der = lambda e: c.is_some(rc_field(c, e, 'derived_from', 'derived_from'))
    isreg = lambda e: c.is_variant(e, RC, 'Register')
    p = lambda v: fld(s, c.vi(RS, v), 0)
    d = lambda l, v: derivable(c, l, ty, key, der, p(v))
    regs, cls = c.filter(L, isreg), c.filter(L, lambda e: b_not(isreg(e)))
    return c.match(s, RS, {'Unchanged': d(L, 'Unchanged'), 'RegistersFirst': lcat(d(regs, 'RegistersFirst'), d(cls, 'RegistersFirst')),
                           'ClustersFirst': lcat(d(cls, 'ClustersFirst'), d(regs, 'ClustersFirst'))})
def sorted_fields(c, L, cfg):
    def der(e):
        i = info(c, e)
        return b_or(c.is_some(G(c, i, 'FieldInfo', 'derived_from')), c.exists(G(c, i, 'FieldInfo', 'enumerated_values'), lambda v: c.is_some(G(c, v, 'EnumeratedValues', 'derived_from')), 2))
    return derivable(c, L, 'svd_rs::MaybeArray<svd_rs::FieldInfo>', key_ma(c, 'FieldInfo', lambda i: G(c, G(c, i, 'FieldInfo', 'bit_range'), 'BitRange', 'offset')),
                     der, cfgf(c, cfg, 'field_sorting'))
def sortings(c, s, rc=False):
    """the values of a sorting option, as lists of assumptions"""
    if rc:
        return [('%s, %s' % (v, l), [(c.disc(s, RS), c.vi(RS, v))] + a) for v in c.variants(RS) for l, a in sortings(c, fld(s, c.vi(RS, v), 0))]
    out = []
    for v in c.variants(DS):
        o = fld(s, c.vi(DS, v), 0); h = [(c.disc(s, DS), c.vi(DS, v))]
        d = disc(o, (0, 1), 'Option')
        out.append(('%s, nothing' % v, h + [(d, 0)]))
        for k in c.variants(SO): out.append(('%s, %s' % (v, k), h + [(d, 1), (c.disc(c.some(o), SO), c.vi(SO, k))]))
    return out
def assume_in(t, asm):
    for a, v in asm: t = assume(t, a, v)
    return t
def GROUP(tag, field, ty, srtf, opt, nonempty=False):
    def content(c, st, x, cfg):
        v = G(c, x, st, field)
        L = c.some(v) if opt else v
        S = srtf(c, L, cfg)
        return c.fmap(S, lambda e: [item(node(c, enc(c, ty, e, cfg)))])
    def segs(c, st, x, cfg):
        v = G(c, x, st, field)
        L = c.some(v) if opt else v
        g = c.is_some(v) if opt else TRUE
        if nonempty: g = b_and(g, c.nonempty(L))
        return [seg_if(g, [item(node(c, element(c, tag, content(c, st, x, cfg))))])]
    e = Entry(tag, field, segs, 'group'); e.content = content; e.opt = opt; e.nonempty = nonempty; e.option = {sorted_peripherals: 'peripheral_sorting', sorted_rcs: 'register_cluster_sorting', sorted_fields: 'field_sorting'}[srtf]
    return e
def A(name, field, f, opt=True):
    def segs(c, st, x, cfg):
        v = G(c, x, st, field)
        if opt: return [seg_if(c.is_some(v), [item(tup(lstr(name), f(c, c.some(v), cfg)))])]
        return [item(tup(lstr(name), f(c, v, cfg)))]
    return Entry(name, field, segs, f.kind)

MAP = lambda n: 'svd_rs::MaybeArray<svd_rs::%s>' % n
PN, CN, RN, FN, EVN = ident('peripheral_name'), ident('cluster_name'), ident('register_name'), ident('field_name'), ident('enumerated_values_name')
MOD = [K('modifiedWriteValues', 'modified_write_values', 'ModifiedWriteValues'), WC(), K('readAction', 'read_action', 'ReadAction')]
TABLE = {
 'Device': ('device', [O('vendor', 'vendor', txt), O('vendorID', 'vendor_id', txt), T('name', 'name', txt), O('series', 'series', txt), T('version', 'version', txt),
    T('description', 'description', txt), O('licenseText', 'license_text', txt), CPU(), O('headerSystemFilename', 'header_system_filename', txt),
    O('headerDefinitionsPrefix', 'header_definitions_prefix', txt), T('addressUnitBits', 'address_unit_bits', dec), T('width', 'width', dec),
    PROPS('default_register_properties'), GROUP('peripherals', 'peripherals', MAP('PeripheralInfo'), sorted_peripherals, False)],
    [A('schemaVersion', 'schema_version', txt, False), A('xmlns:xs', 'xmlns_xs', txt, False), A('xs:noNamespaceSchemaLocation', 'no_namespace_schema_location', txt, False)]),
 'Cpu': ('cpu', [T('name', 'name', txt), T('revision', 'revision', txt), K('endian', 'endian', 'Endian', False), T('mpuPresent', 'mpu_present', boolean), T('fpuPresent', 'fpu_present', boolean),
    O('fpuDP', 'fpu_double_precision', boolean), O('dspPresent', 'dsp_present', boolean), O('icachePresent', 'icache_present', boolean), O('dcachePresent', 'dcache_present', boolean),
    O('itcmPresent', 'itcm_present', boolean), O('dtcmPresent', 'dtcm_present', boolean), O('vtorPresent', 'vtor_present', boolean), T('nvicPrioBits', 'nvic_priority_bits', dec),
    T('vendorSystickConfig', 'has_vendor_systick', boolean), O('deviceNumInterrupts', 'device_num_interrupts', dec), O('sauNumRegions', 'sau_num_regions', dec)], []),
 'PeripheralInfo': ('peripheral', [T('name', 'name', PN), O('displayName', 'display_name', txt), O('version', 'version', txt), O('description', 'description', txt),
    O('alternatePeripheral', 'alternate_peripheral', PN), O('groupName', 'group_name', txt), O('prependToName', 'prepend_to_name', PN), O('appendToName', 'append_to_name', PN),
    O('headerStructName', 'header_struct_name', PN), T('baseAddress', 'base_address', num('peripheral_base_address')), PROPS('default_register_properties'),
    SUBS_OPT('addressBlock', 'address_block', 'svd_rs::AddressBlock'), SUB('interrupt', 'interrupt', 'svd_rs::Interrupt', many=True),
    GROUP('registers', 'registers', 'svd_rs::RegisterCluster', sorted_rcs, True)], [A('derivedFrom', 'derived_from', PN)]),
 'ClusterInfo': ('cluster', [T('name', 'name', CN), O('description', 'description', txt), O('alternateCluster', 'alternate_cluster', CN), O('headerStructName', 'header_struct_name', txt),
    T('addressOffset', 'address_offset', num('cluster_address_offset')), PROPS('default_register_properties'), SUB('register or cluster', 'children', 'svd_rs::RegisterCluster', many=True)],
    [A('derivedFrom', 'derived_from', CN)]),
 'RegisterInfo': ('register', [T('name', 'name', RN), O('displayName', 'display_name', txt), O('description', 'description', txt), O('alternateGroup', 'alternate_group', txt),
    O('alternateRegister', 'alternate_register', RN), T('addressOffset', 'address_offset', num('register_address_offset')), PROPS('properties'), K('dataType', 'datatype', 'DataType')]
    + MOD + [GROUP('fields', 'fields', MAP('FieldInfo'), sorted_fields, True, True)], [A('derivedFrom', 'derived_from', RN)]),
 'FieldInfo': ('field', [T('name', 'name', FN), O('description', 'description', txt), BITS(), K('access', 'access', 'Access')] + MOD +
    [SUB('enumeratedValues', 'enumerated_values', 'svd_rs::EnumeratedValues', many=True)], [A('derivedFrom', 'derived_from', FN)]),
 'EnumeratedValues': ('enumeratedValues', [O('name', 'name', EVN), K('usage', 'usage', 'Usage'), SUB('enumeratedValue', 'values', 'svd_rs::EnumeratedValue', many=True)], [A('derivedFrom', 'derived_from', EVN)]),
 'EnumeratedValue': ('enumeratedValue', [T('name', 'name', ident('enumerated_value_name')), O('description', 'description', txt), O('value', 'value', num('enumerated_value_value')), O('isDefault', 'is_default', boolean)], []),
 'DimElement': ('dimElement', [T('dim', 'dim', num('dim_dim')), T('dimIncrement', 'dim_increment', num('dim_increment')), DIMINDEX(), O('dimName', 'dim_name', txt),
    SUB('dimArrayIndex', 'dim_array_index', 'svd_rs::DimArrayIndex')], []),
 'DimArrayIndex': ('dimArrayIndex', [O('headerEnumName', 'header_enum_name', ident('dim_array_index_header_enum_name')), SUB('enumeratedValue', 'values', 'svd_rs::EnumeratedValue', many=True)], []),
 'AddressBlock': ('addressBlock', [T('offset', 'offset', num('address_block_offset')), T('size', 'size', num('address_block_size')), K('usage', 'usage', 'AddressBlockUsage', False), K('protection', 'protection', 'Protection')], []),
 'Interrupt': ('interrupt', [T('name', 'name', ident('interrupt_name')), O('description', 'description', txt), T('value', 'value', dec)], []),
 'RegisterProperties': (None, [O('size', 'size', num('register_size')), K('access', 'access', 'Access'), K('protection', 'protection', 'Protection'),
    O('resetValue', 'reset_value', num('register_reset_value')), O('resetMask', 'reset_mask', num('register_reset_mask'))], []),
}
NAMED = {'Usage': 'usage', 'AddressBlockUsage': 'usage', 'Access': 'access', 'Endian': 'endian', 'Protection': 'protection', 'ReadAction': 'readAction', 'ModifiedWriteValues': 'modifiedWriteValues', 'DataType': 'dataType'}

def whole(c, st, x, cfg):
    tag, es, at = TABLE[st]
    return element(c, tag, mk_list(sum([e.segs(c, st, x, cfg) for e in es], [])), mk_list(sum([e.segs(c, st, x, cfg) for e in at], [])))

# tag of the element an opaque writer produces
SUBTAG = {'svd_rs::DimArrayIndex': 'dimArrayIndex', 'svd_rs::EnumeratedValue': 'enumeratedValue', 'svd_rs::EnumeratedValues': 'enumeratedValues', 'svd_rs::Interrupt': 'interrupt', 'svd_rs::AddressBlock': 'addressBlock',
          'svd_rs::RegisterCluster': 'register or cluster', 'svd_rs::MaybeArray<svd_rs::RegisterInfo>': 'register or cluster', 'svd_rs::MaybeArray<svd_rs::ClusterInfo>': 'register or cluster',
          'svd_rs::MaybeArray<svd_rs::PeripheralInfo>': 'peripheral', 'svd_rs::MaybeArray<svd_rs::FieldInfo>': 'field', 'svd_rs::Cpu': 'cpu'}
def tagof(c, x):
    """tag of a child node term"""
    ts = set()
    for l in leafset(x):
        if l.op == 'adt' and l.a[0] == XN and l.a[1] == c.vi(XN, 'Element'): ts |= tag_el(c, l.a[2])
        elif l.op == 'adt' and l.a[0] == '()' : ts.add(l.a[2].a[1] if l.a[2].op == 'lit' else None)
        else: ts.add(None)
    return ts
def tag_el(c, e):
    i = c.P.field_index(EL, 'name', 0)
    r = set()
    for l in leafset(e):
        if l.op == 'adt' and l.a[0] == EL:
            for t in leafset(l.a[2 + i]): r.add(t.a[1] if t.op == 'lit' else None)
        elif l.op == 'fld' and l.a[0].op == 'call' and l.a[0].a[0].startswith(EN + '['): r.add(SUBTAG.get(l.a[0].a[0][len(EN) + 1:-1]))
        else: r.add(None)
    return r
def split_tags(c, l):
    """children list -> {tag: list}; segments with several possible tags are kept under each"""
    out = {}
    def tags(sg):
        if sg.op == 'item': return tagof(c, sg.a[0])
        if sg.op == 'if': return set().union(*[tags(x) for x in sg.a[1:]])
        if sg.op == 'for': return set().union(*[tags(x) for x in sg.a[2:]])
        return {None}
    def keep(sg, t):
        if sg.op == 'if': return [seg_if(sg.a[0], sum([keep(x, t) for x in sg.a[1:]], []))]
        if sg.op == 'for': return [seg_for(sg.a[0], sg.a[1], sum([keep(x, t) for x in sg.a[2:]], []))]
        if sg.op == 'item' and sg.a[0].op == 'case': return [seg_if(h, [item(x)]) for h, x in caseleaves(sg.a[0]) if tagof(c, x) == {t}]
        return [sg] if tags(sg) == {t} else []
    segs = segs_of(l)
    for sg in segs:
        for t in tags(sg): out.setdefault(t, []).extend(keep(sg, t))
    return {t: mk_list(v) for t, v in out.items()}
def caseleaves(t):
    if t.op != 'case': return [(TRUE, t)]
    r = []
    for l in leafset(t):
        g = TRUE
        def go(x, acc):
            if x is l: return acc
            return None
        r.append((where(t, l), l))
    return r
def where(t, l):
    """condition under which case tree t is leaf l"""
    if t is l: return TRUE
    if t.op != 'case': return FALSE
    d = {k: where(x, l) for k, x in t.a[1]}
    return mk_case(t.a[0], d, where(t.a[2], l) if t.a[2] is not None else None)

def leaf_encoders(c):
    if not hasattr(c, '_le'):
        c._le = set()
        for (m, ty), fs in c.byimpl.items():
            if m in ('Encode::encode_with_config', 'Encode::encode') and ty.split('::')[-1] in LEAF: c._le |= {f['key'] for f in fs}
    return c._le

def encode_fn(c, ty, tr='Encode'): return c.impl(tr + '::encode_with_config', ty)
OPQ = ['svd_rs::DimElement::indexes_as_range']
def attrs_sorted(l):
    """attributes are a map: compare them by name"""
    segs = guarded(l)
    def key(s):
        while s.op == 'if' and len(s.a) == 2: s = s.a[1]
        return (0, s.a[0].a[2].a[1]) if s.op == 'item' and s.a[0].op == 'adt' and s.a[0].a[2].op == 'lit' else (1, '')
    return mk_list(sorted(segs, key=key))

def check_elements(ck, want=None, order=True, only=None):
    """want: kinds of entries to check (None: all)"""
    c = ck.c
    ck.rule('writer table: the children and attributes of a written element are, in schema order, one per present property of the element, under the tag of that property, with its text in the format the configuration gives for it')
    for st, (tag, es, at) in TABLE.items():
        if only and st != only: continue
        def one(st=st, tag=tag, es=es, at=at):
            f = encode_fn(c, sty(c, st), 'EncodeChildren' if tag is None else 'Encode')
            r = c.run(f, OPQ)
            x, cfg = c.args(f)
            el = c.okv(r.ret)
            nm = lambda e: '%s.%s' % (st, e.field)
            if want is None: ck.same(f, '%s: writing succeeds' % st, c.is_ok(r.ret), TRUE, notes=r.notes)
            if tag is None: ch, attrs = el, EMPTYL
            else:
                if want is None: ck.same(f, '%s: tag' % st, c.F(el, EL, 'name'), lstr(tag), notes=r.notes)
                ch, attrs = c.F(el, EL, 'children'), c.F(el, EL, 'attributes')
            flat = mk_list(guarded(ch))
            got = split_tags(c, flat)
            for e in es:
                if want is not None and e.kind not in want: continue
                if e.tag is None:
                    exp = split_tags(c, mk_list(e.segs(c, st, x, cfg)))
                    for t, l in exp.items(): ck.same(f, '%s: <%s>' % (nm(e), t), got.get(t, EMPTYL), l, notes=r.notes)
                elif e.kind == 'group':
                    exp = mk_list(e.segs(c, st, x, cfg))
                    v = G(c, x, st, e.field)
                    g = c.is_some(v) if e.opt else TRUE
                    if e.nonempty: g = b_and(g, c.nonempty(c.some(v) if e.opt else v))
                    found = got.get(e.tag, EMPTYL)
                    for lab, asm in sortings(c, cfgf(c, cfg, e.option), e.option == 'register_cluster_sorting'):
                        ck.same(f, '%s: <%s> sorted by %s' % (nm(e), e.tag, lab), assume_in(found, asm), assume_in(exp, asm), notes=r.notes)
                else: ck.same(f, '%s: <%s>' % (nm(e), e.tag), got.get(e.tag, EMPTYL), mk_list(e.segs(c, st, x, cfg)), notes=r.notes)
            ga = split_tags(c, mk_list(guarded(attrs)))
            for e in at:
                if want is not None and e.kind not in want: continue
                ck.same(f, '%s: attribute %s' % (nm(e), e.tag), ga.get(e.tag, EMPTYL), mk_list(e.segs(c, st, x, cfg)), notes=r.notes)
            if order and want is None:
                ck.same(f, '%s: no other attributes' % st, attrs_sorted(attrs), attrs_sorted(mk_list(sum([e.segs(c, st, x, cfg) for e in at], []))), notes=r.notes)
                ck.same(f, '%s: children in schema order, and no others' % st, flat, mk_list(sum([e.segs(c, st, x, cfg) for e in es], [])), notes=r.notes)
        ck.guarded('writing of %s' % st, one, anchor='Encode for ' + st)

def check_wrappers(ck):
    c = ck.c
    ck.rule('an arrayed element is written as one element holding the dimension children followed by those of the element; a register or cluster as what it is; keywords as one text child')
    for st, tag in (('PeripheralInfo', 'peripheral'), ('ClusterInfo', 'cluster'), ('RegisterInfo', 'register'), ('FieldInfo', 'field')):
        def one(st=st, tag=tag):
            f = encode_fn(c, MAP(st)); r = c.run(f, OPQ); x, cfg = c.args(f)
            si = enc(c, S(st), fld(x, 0, 0), cfg)
            i, d = enc(c, S(st), fld(x, 1, 0), cfg), enc(c, S('DimElement'), fld(x, 1, 1), cfg)
            for k, w in (('name', lstr(tag)), ('children', None), ('attributes', None)):
                if w is None: w = lcat(c.F(d, EL, k), c.F(i, EL, k))
                found = c.F(c.okv(r.ret), EL, k)
                ck.same(f, '%s: %s of an array' % (st, k), assume_var(c, found, x, 1), w, notes=r.notes)
            ck.same(f, '%s: single element' % st, assume_var(c, c.okv(r.ret), x, 0), si, notes=r.notes)
        ck.guarded('writing of array of %s' % st, one, anchor='Encode for array of ' + st)
    def rc():
        f = encode_fn(c, S('RegisterCluster')); r = c.run(f, OPQ); x, cfg = c.args(f)
        for v, ty in (('Register', MAP('RegisterInfo')), ('Cluster', MAP('ClusterInfo'))):
            k = c.vi(RC, v)
            ck.same(f, 'written as a %s' % v.lower(), assume_var(c, c.okv(r.ret), x, k, RC), enc(c, ty, fld(x, k, 0), cfg), notes=r.notes)
    ck.guarded('writing of a register or cluster', rc, anchor='Encode for RegisterCluster')
    for ty, tag in NAMED.items():
        def kw(ty=ty, tag=tag):
            f = encode_fn(c, sty(c, ty)); r = c.run(f, OPQ); x, cfg = c.args(f)
            ck.same(f, '<%s>' % tag, node(c, c.okv(r.ret)), keyword(c, ty, tag, x), notes=r.notes)
        ck.guarded('writing of %s' % ty, kw, anchor='Encode for ' + ty)
    def wc():
        f = encode_fn(c, S('WriteConstraint')); r = c.run(f, OPQ); x, cfg = c.args(f)
        ck.same(f, '<writeConstraint>', c.okv(r.ret), constraint(c, x), notes=r.notes)
    ck.guarded('writing of a write constraint', wc, anchor='Encode for WriteConstraint')
def check_nested(ck):
    c = ck.c
    ck.rule('an element written as single or array, register or cluster passes the configuration it is written with to its parts')
    for ty in [MAP(st) for st in ('PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo')] + [S('RegisterCluster')]:
        def one(ty=ty):
            f = encode_fn(c, ty); r = c.run(f, OPQ); x, cfg = c.args(f)
            calls = [y for y in subterms(r.ret) if y.op == 'call' and EN + '[' in y.a[0] and len(y.a) == 3]
            bad = [y for y in calls if y.a[2] is not cfg]
            if bad and not tainted(bad[0].a[2]) and not r.notes: ck.viol(f, 'configuration of the parts', 'written with ' + show(bad[0].a[2])[:200])
            elif bad or not calls: ck.unk(f, 'configuration of the parts', 'not interpreted')
            else: ck.ok(f, 'configuration of the parts')
        ck.guarded('configuration of the parts of %s' % ty, one, anchor='Encode for ' + ty)
def S(n): return 'svd_rs::' + n
def assume_var(c, t, x, k, ty=MA): return assume(t, c.disc(x, ty), k)

# ------------------------------------------------------------ configuration
NF, IFM, FBR = 'svd_encoder::NumberFormat', 'svd_encoder::IdentifierFormat', 'svd_encoder::config::FieldBitRangeFormat'
OPTS = {   # option -> (type, default)
 'peripheral_name': ('I', None), 'peripheral_base_address': ('N', 'UpperHex8'), 'peripheral_sorting': ('D', None), 'address_block_offset': ('N', 'UpperHex'), 'address_block_size': ('N', 'UpperHex'),
 'interrupt_name': ('I', None), 'cluster_name': ('I', None), 'cluster_address_offset': ('N', 'UpperHex'), 'register_cluster_sorting': ('R', None), 'register_name': ('I', None),
 'register_address_offset': ('N', 'UpperHex'), 'register_size': ('N', 'LowerHex'), 'register_reset_value': ('N', 'UpperHex16'), 'register_reset_mask': ('N', 'UpperHex16'), 'field_name': ('I', None),
 'field_bit_range': ('B', None), 'field_sorting': ('D', None), 'enumerated_values_name': ('I', None), 'enumerated_value_name': ('I', None), 'enumerated_value_value': ('N', 'Dec'),
 'dim_dim': ('N', 'Dec'), 'dim_increment': ('N', 'UpperHex'), 'dim_array_index_header_enum_name': ('I', None)}
NOSETTER = {'dim_array_index_header_enum_name'}
def unchanged(c): return c.variant(DS, 'Unchanged', NONE())
def opt_default(c, k):
    ty, d = OPTS[k]
    if ty == 'N': return c.variant(NF, d)
    if ty == 'D': return unchanged(c)
    if ty == 'R': return c.variant(RS, 'Unchanged', unchanged(c))
    return NONE()
def default_config(c):
    fs = c.fields(CFG)
    for k in fs:
        if k not in OPTS: raise SpecGap('no rule for option ' + k)
    return c.struct(CFG, {k: opt_default(c, k) for k in OPTS})
IWORDS = list(CASES)
NWORDS = ['UpperHex', 'UpperHex8', 'UpperHex16', 'LowerHex', 'LowerHex8', 'LowerHex16', 'Dec', 'Bin']
BWORDS = ['BitRange', 'OffsetWidth', 'MsbLsb']
def words(c, x, arms):
    """(is a word, value) of a keyword text"""
    g = FALSE; v = None
    for w, t in reversed(list(arms.items())):
        e = eq(x, lstr(w)); g = b_or(g, e)
        v = t if v is None else ite(e, t, v)
    return g, v
def parts(c, x): return leafs.call('split', x, lstr(','))
def has(c, x, w): return c.exists(parts(c, x), lambda e: eq(e, lstr(w)))
def p_sorting(c, x):
    s = lambda k: SOME(c.variant(SO, k))
    return ite(has(c, x, 'Offset'), s('Offset'), ite(has(c, x, 'OffsetReversed'), s('OffsetReversed'), ite(has(c, x, 'Name'), s('Name'), NONE())))
def p_derivable(c, x):
    s = p_sorting(c, x)
    return ite(has(c, x, 'DerivedLast'), c.variant(DS, 'DeriveLast', s), c.variant(DS, 'Unchanged', s))
def p_rc(c, x):
    d = p_derivable(c, x)
    return ite(has(c, x, 'RegistersFirst'), c.variant(RS, 'RegistersFirst', d), ite(has(c, x, 'ClustersFirst'), c.variant(RS, 'ClustersFirst', d), c.variant(RS, 'Unchanged', d)))
def opt_parse(c, ty, x):
    """(accepted, value) of an option text"""
    if ty == 'N': return words(c, x, {w: c.variant(NF, w) for w in NWORDS})
    if ty == 'I': return words(c, x, {w: c.variant(IFM, w) for w in IWORDS})
    if ty == 'B': return words(c, x, {w: c.variant(FBR, FBR.split('::')[-1], c.variant(sty(c, 'BitRangeType'), w)) for w in BWORDS})
    if ty == 'D': return TRUE, p_derivable(c, x)
    if ty == 'R': return TRUE, p_rc(c, x)

def check_config(ck):
    c = ck.c
    ck.rule('configuration: documented defaults; a setter, and an update by option name, sets exactly the option it names to exactly the value given; option texts denote the like-named variants')
    def dflt():
        f = c.impl('Default::default', CFG); r = c.run(f)
        w = default_config(c)
        for k in c.fields(CFG): ck.same(f, 'default of option %s' % k, c.F(r.ret, CFG, k), c.F(w, CFG, k), notes=r.notes)
    ck.guarded('default configuration', dflt, anchor='Default for Config')
    for o, (ty, _) in OPTS.items():
        if o in NOSETTER: continue
        def setter(o=o):
            f = c.fn(CFG + '::' + o); r = c.run(f); x, v = c.args(f)
            ck.same(f, 'setter of option %s' % o, r.ret, c.struct(CFG, {k: v if k == o else c.F(x, CFG, k) for k in OPTS}), notes=r.notes)
        ck.guarded('setter of %s' % o, setter, anchor=CFG + '::' + o)
    def upd():
        f = c.fn(CFG + '::update'); r = c.run(f); x, n, v = c.args(f)
        out = r.out(1)
        for o, (ty, _) in OPTS.items():
            ok, val = opt_parse(c, ty, v)
            if ty in 'IB': val = lift1(SOME, val)
            ck.same(f, 'update sets option %s' % o, c.F(out, CFG, o), val, under=b_and(eq(n, lstr(o)), ok), notes=r.notes)
            ck.same(f, 'update of another name keeps option %s' % o, assume_not(c.F(out, CFG, o), n, o), c.F(x, CFG, o), notes=r.notes)
    ck.guarded('update by name', upd, anchor=CFG + '::update')
    for ty, name in (('N', NF), ('I', IFM), ('B', FBR), ('D', DS), ('R', RS)):
        def fs(ty=ty, name=name):
            f = c.impl('FromStr::from_str', name); r = c.run(f); x, = c.args(f)
            ok, val = opt_parse(c, ty, x)
            ck.same(f, 'option texts of %s: accepted words' % name.split('::')[-1], c.is_ok(r.ret), ok, notes=r.notes)
            ck.same(f, 'option texts of %s: value of a word' % name.split('::')[-1], c.okv(r.ret), val, under=ok, notes=r.notes)
        ck.guarded('option texts of %s' % name, fs, anchor='FromStr for ' + name)
    for ty in (DS, RS):
        def df(ty=ty):
            f = c.impl('Default::default', ty); r = c.run(f)
            ck.same(f, 'default sorting', r.ret, unchanged(c) if ty == DS else c.variant(RS, 'Unchanged', unchanged(c)), notes=r.notes)
        ck.guarded('default of %s' % ty, df, anchor='Default for ' + ty)
def assume_not(t, n, o):
    """t where text n is not o"""
    return mk_case_under(t, eq(n, lstr(o)))
def mk_case_under(t, g): return ite(g, BOT, t)

def check_entry(ck):
    c = ck.c
    ck.rule('the text of a device is the serialization of the element written for it with the given (or default) configuration, with escaping')
    DEV = S('Device')
    def text(f, cfg):
        r = c.run(f); x = c.args(f)[0]
        ck.same(f, 'writing succeeds', c.is_ok(r.ret), TRUE, notes=r.notes)
        v = c.okv(r.ret)
        ws = [t for t in subterms(v) if t.op == 'call' and t.a[0].startswith('ext:xmltree::Element::write') and t.a[0].endswith('!mut1')]
        if not ws and not any(t.op == 'call' and t.a[0].startswith('ext:') and t.a[0].endswith(('!mut0', '!mut1')) or t.op == 'call' and t.a[0].startswith(('ext:xmltree', 'svd_encoder')) for t in subterms(v)):
            return ck.viol(f, 'text of the element', 'the element written for the device does not enter the text returned: ' + show(v, 0, 4))
        if len(ws) != 1 or v is not fld(call('utf8', ws[0]), 0, 0): return ck.unk(f, 'text of the element', 'no single serialization found')
        w = ws[0]
        ck.same(f, 'the element written', w.a[1], enc(c, DEV, x, cfg), notes=r.notes)
        ck.same(f, 'the text starts empty', w.a[2], EMPTYL, notes=r.notes)
        if len(w.a) > 3:
            ec = w.a[3]; EC = ext(c, 'xml', 'EmitterConfig')
            for k in ('perform_escaping', 'keep_element_names_stack'):
                d = c.F(ec, EC, k)
                if d is FALSE or (d.op == 'lit' and d is not TRUE): ck.viol(f, 'serialization with %s' % k, 'switched off')
                else: ck.ok(f, 'serialization with %s' % k)
    def a():
        f = c.fn('svd_encoder::encode_with_config'); text(f, c.args(f)[1])
    def b():
        f = c.fn('svd_encoder::encode'); text(f, default_config(c))
    ck.guarded('encode_with_config', a, anchor='svd_encoder::encode_with_config')
    ck.guarded('encode', b, anchor='svd_encoder::encode')

# ------------------------------------------------------------ reader and writer against each other
ANY = '*'
def tag_literals(t, out=None):
    """element, attribute and namespace names a value is taken from (ANY: any other element too)"""
    out = set() if out is None else out
    if t.op == 'list':
        for sg in t.a: seg_literals(sg, out)
        return out
    for x in subterms(t):
        if x.op == 'case' and x.a[0].op == 'call' and x.a[0].a[0] == 'tagname': out |= selected(x)
        if x.op == 'call' and x.a[0] == 'attr':
            a = x.a[2]
            out.add('@' + a.a[1] if a.op == 'lit' else '@xs:' + a.a[3].a[1] if a.op == 'adt' and a.a[3].op == 'lit' else None)
        if x.op == 'call' and x.a[0] == 'nsuri' and x.a[2].op == 'adt' and x.a[2].a[1] == 1: out.add('@xmlns:' + x.a[2].a[2].a[1])
    return out
def selected(g):
    """names a test of an element's name lets through"""
    r = {k for k, v in g.a[1] if isinstance(k, str) and k and v is not FALSE}
    if g.a[2] is not None and g.a[2] is not FALSE: r.add(ANY)
    return r
def seg_literals(sg, out, bound=()):
    if sg.op == 'item':
        if not (sg.a[0].op == 'elem'): tag_literals(sg.a[0], out)
    elif sg.op == 'spl': tag_literals(sg.a[0], out)
    elif sg.op == 'for':
        tag_literals(sg.a[0], out)
        b = bound + (elem(sg.a[0], sg.a[1]),)
        names = set()
        for x in sg.a[2:]: seg_literals(x, names, b)
        out |= names
    elif sg.op == 'if':
        # only what the test says about the listed element itself counts
        for x in subterms_guard(sg.a[0]):
            if x.op == 'case' and x.a[0].op == 'call' and x.a[0].a[0] == 'tagname' and x.a[0].a[1] in bound: out |= selected(x)
        for x in sg.a[1:]: seg_literals(x, out, bound)
def subterms_guard(g):
    st = [g]; seen = set()
    while st:
        x = st.pop()
        if x in seen or x.op != 'case': continue
        seen.add(x); st.extend(v for _, v in x.a[1])
        if x.a[2] is not None: st.append(x.a[2])
    return seen
def own_leaves(t): return [l for l in leafset(t) if l is not BOT]
def reader_tags(c, st):
    """property path -> names it is read from"""
    from . import model_parse as mp
    out = {}
    f, r, n, cfg = mp.result(c, st)
    for fl in c.fields(sty(c, st)):
        ts = set()
        for l in own_leaves(G(c, c.okv(r.ret), st, fl)):
            for y in subterms(l):
                if tainted(y): raise Unknown('uninterpreted reader of %s' % fl)
                if y.op == 'call' and y.a[0].startswith(mp.PP + '[') and y.a[1] is n:
                    sub = y.a[0][len(mp.PP) + 1:-1].split('::')[-1]
                    if sub == 'RegisterProperties': out.update({(fl,) + k: v for k, v in reader_tags(c, sub).items()}); break
                    if sub == 'BitRange':
                        fb, rb, _, _ = mp.result_of(c, sty(c, sub))
                        ts |= tag_literals(mk_list([item(x) for x in own_leaves(c.okv(rb.ret))]))
                    elif sub == 'DimElement': pass
            ts |= tag_literals(l)
        if (fl,) not in out and not any(k[0] == fl for k in out): out[(fl,)] = {t for t in ts if not (t == '@xmlns:xs' and any(x and x.startswith('@xs:') for x in ts))}
    return out
def writer_tags(c, st):
    """name -> property paths its child or attribute depends on"""
    tag, es, at = TABLE[st]
    f = encode_fn(c, sty(c, st), 'EncodeChildren' if tag is None else 'Encode')
    r = c.run(f, OPQ); x, cfg = c.args(f); el = c.okv(r.ret)
    ch, attrs = (el, EMPTYL) if tag is None else (c.F(el, EL, 'children'), c.F(el, EL, 'attributes'))
    out = {}
    names = c.fields(sty(c, st)); pn = c.fields(sty(c, 'RegisterProperties'))
    def paths(t):
        ps = set()
        st_ = [t]; seen = set()
        while st_:
            y = st_.pop()
            if y in seen: continue
            seen.add(y)
            if y.op == 'fld' and y.a[0].op == 'fld' and y.a[0].a[0] is x and names[y.a[0].a[2]] in ('properties', 'default_register_properties'):
                ps.add((names[y.a[0].a[2]], pn[y.a[2]])); continue
            if y.op == 'fld' and y.a[0] is x: ps.add((names[y.a[2]],)); continue
            st_.extend(children(y))
        return ps
    for pre, l in (('', ch), ('@', attrs)):
        for t, seg in split_tags(c, mk_list(guarded(l))).items(): out[t if t is None else pre + t] = paths(seg)
    return f, out, (None if tag is None else c.F(el, EL, 'name'))
def check_tags(ck):
    from . import model_parse as mp
    c = ck.c
    ck.rule('every child element and attribute the writer of an element produces is read back by the reader of that element into the same property and no other; the element itself is written under a name its reader accepts')
    for st in TABLE:
        def one(st=st):
            rd = reader_tags(c, st)
            f, wr, name = writer_tags(c, st)
            if name is not None and st in mp.PROPS and mp.PROPS[st][0]:
                pf, r, n, cfg = mp.result(c, st)
                if name.op != 'lit': return ck.unk(f, '%s: name of the element' % st, show(name))
                g = assume(c.is_ok(r.ret), tagname(n), name.a[1])
                if g is FALSE: ck.viol(f, '%s: name of the element' % st, 'written as <%s>, which the reader rejects' % name.a[1])
                else: ck.ok(f, '%s: name of the element' % st)
            for t, ps in sorted(wr.items(), key=str):
                what = '%s: <%s>' % (st, t)
                if t is None: ck.unk(f, what, 'name not constant'); continue
                if t == 'register or cluster': names = {(k,) for k in ('children',)}; back = names
                else: back = {p for p, ts in rd.items() if t in ts}
                if not back: back = {p for p, ts in rd.items() if ANY in ts and t[0] != '@'}
                if ps == back: ck.ok(f, what); continue
                if any(None in ts for ts in rd.values()): ck.unk(f, what, 'names read are not constant'); continue
                ck.viol(f, what, 'written for %s, read into %s' % (sorted('.'.join(p) for p in ps), sorted('.'.join(p) for p in back) or 'nothing'))
        ck.guarded('names of %s' % st, one, anchor='Encode for ' + st)

# ------------------------------------------------------------ the rules of single properties
def check_formats(ck):
    c = ck.c
    ck.rule('number formats: the radix, letter case, prefix and padding of the format, of the number itself; identifier formats: the case of the format, word boundaries as documented, the %s placeholder restored')
    def nf():
        fs = c.P.by_name.get('svd_encoder::config::format_number')
        if not fs: raise Missing('format_number')
        for f in fs:
            r = c.run(f); x, v = c.args(f)
            for k in NWORDS:
                w = format_number(c, x, c.variant(NF, k))
                ck.same(f, 'number format %s' % k, assume_var(c, r.ret, v, c.vi(NF, k), NF), w, notes=r.notes)
    ck.guarded('number formats', nf, anchor='svd_encoder::config::format_number', private=True)
    def cc():
        f = c.fn('svd_encoder::config::change_case'); r = c.run(f); x, v = c.args(f)
        ck.same(f, 'identifier without format', assume(r.ret, disc(v, (0, 1), 'Option'), 0), x, notes=r.notes)
        for k in CASES:
            t = assume_var(c, assume(r.ret, disc(v, (0, 1), 'Option'), 1), c.some(v), c.vi(IFM, k), IFM)
            ck.same(f, 'identifier format %s' % k, t, change_case(c, x, SOME(c.variant(IFM, k))), notes=r.notes)
    ck.guarded('identifier formats', cc, anchor='svd_encoder::config::change_case', private=True)
def check_options(ck):
    """parts whose text or order an option decides, and nested elements"""
    check_elements(ck, {'ident', 'num', 'group', 'sub'})
def check_written(ck): check_elements(ck, {'ident', 'num'})
def check_groups(ck): check_elements(ck, {'group'})
def check_dim(ck): check_elements(ck, {'txt'}, only='DimElement')
