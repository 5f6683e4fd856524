"""Reading XML elements (svd-parser)."""
from .data import *
from . import model_build as mb
from engine.leafs import res_call, opt_call, tagname, hastag

PP = 'svd_parser::Parse::parse'
def parse(c, ty, node, cfg=None):
    """reading `node` as a value of type ty (the readers themselves are specified separately)"""
    return res_call('%s[%s]' % (PP, ty), node, UNIT if cfg is None else cfg)
def is_tag(n, *tags):
    g = FALSE
    for t in tags: g = b_or(g, eq(tagname(n), lstr(t)))
    return g
def is_element(n): return b_not(eq(tagname(n), lstr('')))
def child(c, n, tag):
    """first child element of that name, as an option"""
    return c.first(call('children', n), lambda e: is_tag(e, tag))
def raw_text(n): return opt_call('text', n)
def trimmed(x): return lift1(lambda l: lstr(l.a[1].strip()) if l.op == 'lit' else mk('call', 'trim', l), x)
def attr(n, a): return opt_call('attr', n, lstr(a))
def loc(n): return call('nodeid', n)

# ------------------------------------------------------------ readers: (condition of success, value)
def TEXT(tag):
    """content of an optional child; absent or empty child: no value"""
    def r(c, n, cfg):
        ch = child(c, n, tag); t = raw_text(c.some(ch))
        g = b_and(c.is_some(ch), c.is_some(t))
        return TRUE, ite(g, SOME(trimmed(c.some(t))), NONE())
    return r
def MTEXT(tag):
    def r(c, n, cfg):
        ch = child(c, n, tag); t = raw_text(c.some(ch))
        return b_and(c.is_some(ch), c.is_some(t)), SOME(trimmed(c.some(t)))
    r.wf = lambda c, n, cfg: TRUE
    return r
def MAND(ty, tag, withcfg=False):
    def r(c, n, cfg):
        ch = child(c, n, tag); p = parse(c, ty, c.some(ch), cfg if withcfg else None)
        return b_and(c.is_some(ch), c.is_ok(p)), SOME(c.okv(p))
    r.wf = lambda c, n, cfg: OPT(ty, tag, withcfg)(c, n, cfg)[0]
    return r
def OPT(ty, tag, withcfg=False):
    def r(c, n, cfg):
        ch = child(c, n, tag); p = parse(c, ty, c.some(ch), cfg if withcfg else None)
        return b_or(b_not(c.is_some(ch)), c.is_ok(p)), ite(c.is_some(ch), SOME(c.okv(p)), NONE())
    return r
def ATTR(name):
    return lambda c, n, cfg: (TRUE, ite(c.is_some(attr(n, name)), SOME(c.some(attr(n, name))), NONE()))
def HERE(ty):
    """a part read from the same element"""
    def r(c, n, cfg):
        p = parse(c, ty, n, cfg)
        return c.is_ok(p), c.okv(p)
    return r
def some(reader):
    def r(c, n, cfg):
        g, v = reader(c, n, cfg)
        return g, SOME(v)
    return r
def MANY(ty, cond, parent=None, bad=None):
    """all child elements satisfying cond, in document order; `bad`: those that are an error"""
    def r(c, n, cfg):
        L = call('children', n)
        g = c.forall(L, lambda e: b_or(b_not(cond(e)), b_and(b_not(bad(e)) if bad else TRUE, c.is_ok(parse(c, ty, e, cfg)))))
        return g, c.fmap(L, lambda e: [seg_if(cond(e), [item(c.okv(parse(c, ty, e, cfg)))])])
    return r
def INSIDE(tag, many, optional):
    """the same below a grouping child element"""
    def r(c, n, cfg):
        ch = child(c, n, tag); h = c.is_some(ch)
        g, v = many(c, c.some(ch), cfg)
        if optional: return b_or(b_not(h), g), ite(h, SOME(v), NONE())
        return b_and(h, g), SOME(v)
    r.wf = lambda c, n, cfg: INSIDE(tag, many, True)(c, n, cfg)[0]
    return r
def NONEMPTY(many):
    def r(c, n, cfg):
        g, v = many(c, n, cfg)
        return g, ite(c.nonempty(v), SOME(v), NONE())
    return r
def UNLESS_IGNORED(reader, absent):
    """skipped when the parser is asked to ignore enumerated values"""
    def r(c, n, cfg):
        ig = c.F(cfg, 'svd_parser::Config', 'ignore_enums')
        ig = atom_bool(ig)
        g, v = reader(c, n, cfg)
        return b_or(ig, g), ite(ig, absent, v)
    return r
U32, U64, BOOL = 'u32', 'u64', 'svd_parser::types::BoolParse'
S = lambda n: 'svd_rs::' + n
anyel = is_element
ALLOW_EV = lambda e: b_and(is_element(e), b_not(is_tag(e, 'name', 'headerEnumName', 'usage')))
EVS = lambda skip: MANY(S('EnumeratedValue'), lambda e: b_and(is_element(e), b_not(is_tag(e, *skip))), bad=lambda e: b_not(is_tag(e, 'enumeratedValue')))
ARR = lambda n: 'svd_rs::MaybeArray<svd_rs::%s>' % n
RCT = S('RegisterCluster')
DERIVED = ATTR('derivedFrom')

# element -> (required tag, property -> reader); the lists of children are kept apart
PROPS = {
 'Device': ('device', dict(
    vendor=TEXT('vendor'), vendor_id=TEXT('vendorID'), name=MTEXT('name'), series=TEXT('series'), license_text=TEXT('licenseText'),
    cpu=OPT(S('Cpu'), 'cpu', True), header_system_filename=TEXT('headerSystemFilename'), header_definitions_prefix=TEXT('headerDefinitionsPrefix'),
    default_register_properties=HERE(S('RegisterProperties')), version=TEXT('version'), description=TEXT('description'),
    address_unit_bits=OPT(U32, 'addressUnitBits'), width=OPT(U32, 'width'), schema_version=ATTR('schemaVersion'))),
 'Cpu': ('cpu', dict(
    name=MTEXT('name'), revision=MTEXT('revision'), endian=MAND(S('Endian'), 'endian', True), mpu_present=MAND(BOOL, 'mpuPresent'),
    fpu_present=MAND(BOOL, 'fpuPresent'), fpu_double_precision=OPT(BOOL, 'fpuDP'), dsp_present=OPT(BOOL, 'dspPresent'),
    icache_present=OPT(BOOL, 'icachePresent'), dcache_present=OPT(BOOL, 'dcachePresent'), itcm_present=OPT(BOOL, 'itcmPresent'),
    dtcm_present=OPT(BOOL, 'dtcmPresent'), vtor_present=OPT(BOOL, 'vtorPresent'), nvic_priority_bits=MAND(U32, 'nvicPrioBits'),
    has_vendor_systick=MAND(BOOL, 'vendorSystickConfig'), device_num_interrupts=OPT(U32, 'deviceNumInterrupts'), sau_num_regions=OPT(U32, 'sauNumRegions'))),
 'PeripheralInfo': ('peripheral', dict(
    name=MTEXT('name'), display_name=TEXT('displayName'), version=TEXT('version'), description=TEXT('description'),
    alternate_peripheral=TEXT('alternatePeripheral'), group_name=TEXT('groupName'), prepend_to_name=TEXT('prependToName'), append_to_name=TEXT('appendToName'),
    header_struct_name=TEXT('headerStructName'), base_address=MAND(U64, 'baseAddress'), default_register_properties=HERE(S('RegisterProperties')), derived_from=DERIVED)),
 'ClusterInfo': (None, dict(
    name=MTEXT('name'), description=TEXT('description'), alternate_cluster=TEXT('alternateCluster'), header_struct_name=TEXT('headerStructName'),
    address_offset=MAND(U32, 'addressOffset'), default_register_properties=HERE(S('RegisterProperties')), derived_from=DERIVED)),
 'RegisterInfo': (None, dict(
    name=MTEXT('name'), display_name=TEXT('displayName'), description=TEXT('description'), alternate_group=TEXT('alternateGroup'),
    alternate_register=TEXT('alternateRegister'), address_offset=MAND(U32, 'addressOffset'), properties=HERE(S('RegisterProperties')),
    datatype=OPT(S('DataType'), 'dataType', True), modified_write_values=OPT(S('ModifiedWriteValues'), 'modifiedWriteValues', True),
    write_constraint=OPT(S('WriteConstraint'), 'writeConstraint', True), read_action=OPT(S('ReadAction'), 'readAction', True), derived_from=DERIVED)),
 'FieldInfo': ('field', dict(
    name=MTEXT('name'), description=TEXT('description'), bit_range=some(HERE(S('BitRange'))), access=OPT(S('Access'), 'access', True),
    modified_write_values=OPT(S('ModifiedWriteValues'), 'modifiedWriteValues', True),
    write_constraint=UNLESS_IGNORED(OPT(S('WriteConstraint'), 'writeConstraint', True), NONE()),
    read_action=OPT(S('ReadAction'), 'readAction', True), derived_from=DERIVED)),
 'EnumeratedValues': ('enumeratedValues', dict(name=TEXT('name'), usage=OPT(S('Usage'), 'usage', True), derived_from=DERIVED)),
 'EnumeratedValue': ('enumeratedValue', dict(name=MTEXT('name'), description=TEXT('description'), value=OPT(U64, 'value'), is_default=OPT(BOOL, 'isDefault'))),
 'DimElement': (None, dict(dim=MAND(U32, 'dim'), dim_increment=MAND(U32, 'dimIncrement'), dim_name=TEXT('dimName'),
    dim_array_index=OPT('svd_rs::DimArrayIndex', 'dimArrayIndex', True))),
 'AddressBlock': (None, dict(offset=MAND(U32, 'offset'), size=MAND(U32, 'size'), usage=MAND('svd_rs::AddressBlockUsage', 'usage', True),
    protection=OPT(S('Protection'), 'protection', True))),
 'Interrupt': ('interrupt', dict(name=MTEXT('name'), description=TEXT('description'), value=MAND(U32, 'value'))),
 'RegisterProperties': (None, dict(size=OPT(U32, 'size'), access=OPT(S('Access'), 'access', True), protection=OPT(S('Protection'), 'protection', True),
    reset_value=OPT(U64, 'resetValue'), reset_mask=OPT(U64, 'resetMask'))),
}
LISTS = {
 'Device': dict(peripherals=INSIDE('peripherals', MANY(ARR('PeripheralInfo'), anyel), False)),
 'PeripheralInfo': dict(address_block=NONEMPTY(MANY(S('AddressBlock'), lambda e: is_tag(e, 'addressBlock'))),
    interrupt=some(MANY(S('Interrupt'), lambda e: is_tag(e, 'interrupt'))), registers=INSIDE('registers', MANY(RCT, anyel), True)),
 'ClusterInfo': dict(children=some(MANY(RCT, lambda e: is_tag(e, 'register', 'cluster')))),
 'RegisterInfo': dict(fields=INSIDE('fields', MANY(ARR('FieldInfo'), anyel), True)),
 'FieldInfo': dict(enumerated_values=some(UNLESS_IGNORED(MANY(S('EnumeratedValues'), lambda e: is_tag(e, 'enumeratedValues')), EMPTYL))),
 'EnumeratedValues': dict(values=some(EVS(('name', 'headerEnumName', 'usage')))),
}
# properties the parser never sets (they take the builder's default)
UNREAD = {'Cpu': ['sau_regions_config'], 'Device': [], 'Interrupt': []}

def special(c, st, n, cfg):
    """readers that need more than one child"""
    if st == 'Device':
        ns = opt_call('nsuri', n, SOME(lstr('xs')))
        at = opt_call('attr', n, tup(c.some(ns), lstr('noNamespaceSchemaLocation')))
        return {'xmlns_xs': (TRUE, ite(c.is_some(ns), SOME(c.some(ns)), NONE())),
                'no_namespace_schema_location': (TRUE, ite(b_and(c.is_some(ns), c.is_some(at)), SOME(c.some(at)), NONE()))}
    if st == 'DimElement':
        ch = child(c, n, 'dimIndex'); t = raw_text(c.some(ch))
        ix = indexes(trimmed(c.some(t)))
        return {'dim_index': (b_or(b_not(c.is_some(ch)), b_and(c.is_some(t), c.is_some(ix))), ite(c.is_some(ch), SOME(c.some(ix)), NONE()))}
    return {}
def indexes(t): return opt_call('svd_rs::DimElement::parse_indexes', t)

def builder(c, st, n, cfg):
    """(condition that all parts read, builder holding what was read)"""
    nm = mb.names(c)[st]; bty = nm.get('b', nm['s'])
    tag, props = PROPS[st]
    ok = is_tag(n, tag) if tag else TRUE
    fs = {}
    rd = dict(props); rd.update(LISTS.get(st, {}))
    parts = {k: r(c, n, cfg) for k, r in rd.items()}
    parts.update(special(c, st, n, cfg))
    for k, (g, v) in parts.items():
        if k not in c.fields(bty): raise Missing('%s.%s' % (bty, k))
        ok = b_and(ok, g); fs[k] = v
    for k in c.fields(bty):
        if k in fs: continue
        if bty.endswith('FieldInfoBuilder') and k in ('bit_offset', 'bit_width'): fs[k] = NONE(); continue
        if k in UNREAD.get(st, ()): fs[k] = NONE(); continue
        raise SpecGap('no reader specified for %s.%s' % (bty, k))
    return ok, c.struct(bty, fs)

def opaque(c): return mb.opq(c) + ['svd_rs::DimElement::parse_indexes']

def result(c, st):
    f = c.impl('Parse::parse', sty(c, st))
    r = c.run(f, opaque(c))
    n, cfg = c.args(f)
    return f, r, n, cfg

def wellformed(c, st, n, cfg, only=None):
    """every part that is present reads without error"""
    rd = dict(PROPS[st][1]); rd.update(LISTS.get(st, {}))
    g = TRUE
    for k, r in rd.items():
        if only is None or k in only: g = b_and(g, r.wf(c, n, cfg) if hasattr(r, 'wf') else r(c, n, cfg)[0])
    if only is None:
        for k, (x, _) in special(c, st, n, cfg).items(): g = b_and(g, x)
    return g

def check_props(ck, lists=False):
    c = ck.c
    for st in PROPS:
        if lists and st not in LISTS: continue
        def one(st=st):
            f, r, n, cfg = result(c, st)
            ok, b = builder(c, st, n, cfg)
            lvl = c.F(cfg, 'svd_parser::Config', 'validate_level')
            okb, v = mb.struct_value(c, st, b, lvl)
            okg = b_and(ok, b_and(okb, mb.valid(c, st, v, lvl)))
            if lists: ck.same(f, 'fails if one of the children does', b_or(b_not(c.is_ok(r.ret)), wellformed(c, st, n, cfg, LISTS[st])), TRUE, notes=r.notes)
            else: ck.same(f, 'succeeds exactly when every part read is well-formed, mandatory parts exist and the element validates', c.is_ok(r.ret), okg, notes=r.notes)
            for fl in c.fields(sty(c, st)):
                if (fl in LISTS.get(st, {})) != lists: continue
                ck.same(f, 'property `%s` comes from its own child' % fl, G(c, c.okv(r.ret), st, fl), c.F(v, sty(c, st), fl), under=okg, notes=r.notes)
        ck.guarded('reading of %s' % st, lambda: mb.either(ck, one), anchor='Parse for ' + st)

def check_fields(ck):
    ck.rule('reader table: every property of a parsed element is read from the child element or attribute of its own name with the reader of its type; '
            'parsing succeeds exactly when all parts read, the mandatory ones exist and the assembled element validates at the configured level')
    check_props(ck)
def check_lists(ck):
    ck.rule('repeated children: the list is the readings of exactly the matching child elements in document order, and fails if one of them does')
    check_props(ck, True)
def check_strict_parts(ck):
    c = ck.c
    ck.rule('no malformed part is accepted: whenever reading an element succeeds, every child and attribute present that it reads was well-formed')
    for st in PROPS:
        def one(st=st):
            f, r, n, cfg = result(c, st)
            okr = c.is_ok(r.ret)
            rd = dict(PROPS[st][1]); rd.update(LISTS.get(st, {}))
            parts = {k: (x.wf(c, n, cfg) if hasattr(x, 'wf') else x(c, n, cfg)[0]) for k, x in rd.items()}
            parts.update({k: x for k, (x, _) in special(c, st, n, cfg).items()})
            for k, g in parts.items():
                if g is TRUE: continue
                ck.same(f, 'success implies that `%s` was well-formed where present' % k, b_or(b_not(okr), g), TRUE, notes=r.notes)
        ck.guarded('strictness of %s' % st, lambda: mb.either(ck, one), anchor='Parse for ' + st)
    # the readers of the parts
    sub = Check(c, ck.pid)
    STRICT[0] = True
    try:
        for fn in (check_parts, check_array, check_regcluster, check_numbers, check_text, check_bits, check_keywords): fn(sub)
    finally: STRICT[0] = False
    ck.rows.extend(sub.rows)
STRICT = [False]

# ------------------------------------------------------------ parts not made by a builder
def result_of(c, ty):
    f = c.impl('Parse::parse', ty)
    r = c.run(f, opaque(c))
    n, cfg = c.args(f)
    return f, r, n, cfg
def agree(ck, f, r, ok, val, what, parts=None):
    """the reading succeeds exactly under ok, and then gives val (per named part)"""
    c = ck.c
    if STRICT[0]:
        ck.same(f, what + ': accepted only when well-formed', b_or(b_not(c.is_ok(r.ret)), ok), TRUE, notes=r.notes)
        return
    ck.same(f, what + ': accepted exactly when well-formed', c.is_ok(r.ret), ok, notes=r.notes)
    v = c.okv(r.ret)
    if parts:
        for k, w in parts.items(): ck.same(f, '%s: %s' % (what, k), w[0](v), w[1], under=ok, notes=r.notes)
    else: ck.same(f, what + ': value', v, val, under=ok, notes=r.notes)

ENUM_VALUES_OF_INDEX = EVS(('headerEnumName',))
def check_parts(ck):
    """dimArrayIndex, write constraints, registers-or-clusters, arrays"""
    c = ck.c
    def dai(which):
        f, r, n, cfg = result_of(c, 'svd_rs::DimArrayIndex')
        g1, hn = TEXT('headerEnumName')(c, n, cfg); g2, vs = ENUM_VALUES_OF_INDEX(c, n, cfg)
        P = 'DimArrayIndex'
        agree(ck, f, r, b_and(g1, g2), None, 'dimension array index', {k: (lambda v, k=k: G(c, v, P, k), w) for k, w in dict(header_enum_name=hn, values=vs).items()})
    ck.guarded('dimArrayIndex', lambda: dai(0), anchor='Parse for DimArrayIndex')
    def wcr():
        f, r, n, cfg = result_of(c, 'svd_rs::WriteConstraintRange')
        g1, lo = MAND(U64, 'minimum')(c, n, cfg); g2, hi = MAND(U64, 'maximum')(c, n, cfg)
        agree(ck, f, r, b_and(g1, g2), None, 'range of a write constraint', {k: (lambda v, k=k: G(c, v, 'WriteConstraintRange', k), c.some(w)) for k, w in dict(min=lo, max=hi).items()})
    ck.guarded('range', wcr, anchor='Parse for WriteConstraintRange')
    def wc(direct):
        f, r, n, cfg = result_of(c, 'svd_rs::WriteConstraint')
        el = c.first(call('children', n), is_element); only = c.some(el)
        t = tagname(only)
        W = 'svd_rs::WriteConstraint'
        ok = FALSE; val = BOT
        arms = []
        for tag, var, ty in (('writeAsRead', 'WriteAsRead', BOOL), ('useEnumeratedValues', 'UseEnumeratedValues', BOOL), ('range', 'Range', S('WriteConstraintRange'))):
            # the only child element, or the first child of that name: the same node here
            node = only if direct else c.some(c.first(call('children', n), lambda e: hastag(e, t)))
            has = TRUE if direct else c.is_some(c.first(call('children', n), lambda e: hastag(e, t)))
            p = parse(c, ty, node)
            arms.append((b_and(is_tag(only, tag), b_and(has, c.is_ok(p))), c.variant(W, var, c.okv(p))))
        single = b_and(c.is_some(el), b_not(c.is_some(c.E.head(leafs.skip(c.E, c.filter(call('children', n), lambda e: b_not(eq(tagname(e), lstr('')))), lint(1))))))
        for g, v in arms:
            ok = b_or(ok, g); val = ite(g, v, val)
        agree(ck, f, r, b_and(single, ok), val, 'write constraint')
    ck.guarded('write constraint', lambda: ck.either(lambda: wc(False), lambda: wc(True)), anchor='Parse for WriteConstraint')
def check_array(ck):
    c = ck.c
    ck.rule('array rule: an element with a dimIncrement child is an array (its name must hold a %s placeholder and a given index list must have dim entries), any other element is single')
    for st, tag in (('PeripheralInfo', 'peripheral'), ('ClusterInfo', 'cluster'), ('RegisterInfo', 'register'), ('FieldInfo', 'field')):
        def one(st=st, tag=tag):
            f, r, n, cfg = result_of(c, ARR(st))
            p = parse(c, S(st), n, cfg); d = parse(c, S('DimElement'), n, cfg)
            isarr = c.is_some(child(c, n, 'dimIncrement'))
            dim = c.okv(d)
            ix = G(c, dim, 'DimElement', 'dim_index')
            has = atom_bool(mk('call', 'contains', G(c, c.okv(p), st, 'name'), lstr('%s')))
            cnt = b_or(b_not(c.is_some(ix)), eq(G(c, dim, 'DimElement', 'dim'), length(c.some(ix))))
            ok = b_and(is_tag(n, tag), b_and(c.is_ok(p), b_or(b_not(isarr), b_and(c.is_ok(d), b_and(has, cnt)))))
            agree(ck, f, r, ok, ite(isarr, array(c, c.okv(p), dim), single(c, c.okv(p))), 'single element or array')
        ck.guarded('array of ' + st, one, anchor='Parse for MaybeArray<%s>' % st)
def check_regcluster(ck):
    c = ck.c
    def rc():
        f, r, n, cfg = result_of(c, RCT)
        pr, pc = parse(c, ARR('RegisterInfo'), n, cfg), parse(c, ARR('ClusterInfo'), n, cfg)
        ok = b_or(b_and(is_tag(n, 'register'), c.is_ok(pr)), b_and(is_tag(n, 'cluster'), c.is_ok(pc)))
        val = ite(is_tag(n, 'register'), c.variant(RC, 'Register', c.okv(pr)), c.variant(RC, 'Cluster', c.okv(pc)))
        agree(ck, f, r, ok, val, 'register or cluster')
    ck.guarded('register or cluster', rc, anchor='Parse for RegisterCluster')

# ------------------------------------------------------------ texts, numbers, booleans
def starts(t, p): return lift1(lambda l: lbool(l.a[1].startswith(p)) if l.op == 'lit' else atom_bool(mk('call', 'starts', l, lstr(p))), t)
def number(c, ty, t):
    """(the CMSIS-SVD number grammar) result of reading text t, as a Result"""
    E = c.E
    def radix(x, k): return res_call('parse[%s]' % ty if k == 10 else 'parse[%s]#%d' % (ty, k), x)
    cut = lambda x, k: leafs.strslice(x, lint(k), None)
    dontcare = lambda x: call('replace', x, lstr('x'), lstr('0'))
    hexa = b_or(starts(t, '0x'), starts(t, '0X'))
    return ite(hexa, radix(cut(t, 2), 16), ite(starts(t, '#'), radix(dontcare(cut(call('lower', t), 1)), 2), ite(starts(t, '0b'), radix(dontcare(cut(t, 2)), 2), radix(t, 10))))
def check_numbers(ck):
    c = ck.c
    ck.rule('number grammar: 0x/0X hexadecimal, # binary with don\'t-care digits x or X read as 0, 0b binary with x read as 0, else decimal; everything else an error')
    for ty in (U32, U64):
        def one(ty=ty):
            f, r, n, cfg = result_of(c, ty)
            x = raw_text(n); v = number(c, ty, trimmed(c.some(x)))
            agree(ck, f, r, b_and(c.is_some(x), c.is_ok(v)), c.okv(v), 'number (%s)' % ty)
        ck.guarded('numbers', one, anchor='Parse for ' + ty)
def check_text(ck):
    c = ck.c
    ck.rule('booleans are true/1 and false/0; a text is the trimmed content; missing and empty children are told apart as mandatory or optional')
    def bl():
        f, r, n, cfg = result_of(c, BOOL)
        x = raw_text(n); t = trimmed(c.some(x))
        yes = b_or(eq(t, lstr('1')), eq(t, lstr('true'))); no = b_or(eq(t, lstr('0')), eq(t, lstr('false')))
        # str::parse::<bool> is exactly true/false
        found_ok, found_v = c.is_ok(r.ret), c.okv(r.ret)
        pb = res_call('parse[bool]', t)
        okp, vp = b_or(eq(t, lstr('true')), eq(t, lstr('false'))), eq(t, lstr('true'))
        def unfold(g): return subst(g, {disc(pb): ite(okp, lint(0), lint(1)), fld(pb, 0, 0): vp})
        if STRICT[0]:
            ck.same(f, 'boolean: accepted only for 0, 1, true and false', b_or(b_not(unfold(found_ok)), b_or(yes, no)), TRUE, notes=r.notes); return
        ck.same(f, 'boolean: accepted exactly for 0, 1, true and false', unfold(found_ok), b_and(c.is_some(x), b_or(yes, no)), notes=r.notes)
        ck.same(f, 'boolean: value', unfold(found_v), yes, under=b_and(c.is_some(x), b_or(yes, no)), notes=r.notes)
    ck.guarded('boolean', bl, anchor='Parse for BoolParse')
    def helper(me, args, okval):
        f = c.impl('ElementExt::' + me, "roxmltree::Node<'_, '_>")
        r = c.run(f); a = c.args(f)
        ok, val = okval(*a)
        agree(ck, f, r, ok, val, me)
    def H(me, okval): ck.guarded(me, lambda: helper(me, None, okval), anchor='ElementExt::' + me)
    def ch(n, k): return c.first(call('children', n), lambda e: hastag(e, k))
    def gt(n):
        x = raw_text(n); return c.is_some(x), trimmed(c.some(x))
    H('get_text', gt)
    def opt(n, k):
        h = ch(n, k); g, v = gt(c.some(h))
        return TRUE, ite(b_and(c.is_some(h), g), SOME(v), NONE())
    H('get_child_text_opt', opt)
    def man(n, k):
        h = ch(n, k); g, v = gt(c.some(h))
        return b_and(c.is_some(h), g), v
    H('get_child_text', man)
    H('get_child_elem', lambda n, k: (c.is_some(ch(n, k)), c.some(ch(n, k))))
    for me, ty in (('get_child_u32', U32), ('get_child_u64', U64), ('get_child_bool', BOOL)):
        H(me, lambda n, k, ty=ty: (b_and(c.is_some(ch(n, k)), c.is_ok(parse(c, ty, c.some(ch(n, k))))), c.okv(parse(c, ty, c.some(ch(n, k))))))

# ------------------------------------------------------------ bit ranges
BR, BT = 'svd_rs::BitRange', 'svd_rs::BitRangeType'
class Bits:
    """the three notations of a bit range below a field"""
    def __init__(s, c, n):
        kid = lambda t: child(c, n, t)
        u = lambda t: parse(c, U32, c.some(kid(t)))
        num = lambda x: res_call('parse[u32]', x)
        # [msb:lsb]
        t = raw_text(c.some(kid('bitRange'))); x = c.some(t)
        inner = leafs.strslice(x, lint(1), sub(call('strlen', x), lint(1)))
        parts = call('split', inner, lstr(':'))
        p0, p1, p2 = c.E.head(parts), c.E.head(leafs.skip(c.E, parts, lint(1))), c.E.head(leafs.skip(c.E, parts, lint(2)))
        m1, l1 = num(c.some(p0)), num(c.some(p1))
        ends = atom_bool(mk('call', 'ends', x, lstr(']')))
        s.text = c.is_some(t); s.brackets = b_and(starts(x, '['), ends); s.two = b_and(c.is_some(p0), b_and(c.is_some(p1), b_not(c.is_some(p2))))
        s.nums = b_and(c.is_ok(m1), c.is_ok(l1))
        s.many = c.is_some(p2)
        s.badnum = b_or(b_and(c.is_some(p0), b_not(c.is_ok(m1))), b_and(c.is_some(p1), b_not(c.is_ok(l1))))
        s.ok1 = b_and(b_and(s.text, s.brackets), b_and(b_and(c.is_some(p0), c.is_ok(m1)), b_and(c.is_some(p1), b_and(c.is_ok(l1), b_not(c.is_some(p2))))))
        has = lambda *ts: (lambda g: g)(b_and(c.is_some(kid(ts[0])), c.is_some(kid(ts[1]))))
        s.ok2 = b_and(c.is_ok(u('msb')), c.is_ok(u('lsb'))); s.ok3 = b_and(c.is_ok(u('bitOffset')), c.is_ok(u('bitWidth')))
        def rng(m, l, ty):
            w = sub(m, l)
            fits = b_not(atom_bool(mk('call', 'ovf:u32', add(w, lint(1)))))
            return b_and(b_not(lt(m, l)), fits), c.struct(BR, dict(offset=l, width=add(w, lint(1)), range_type=c.variant(BT, ty)))
        s.g1, s.v1 = rng(c.okv(m1), c.okv(l1), 'BitRange')
        s.g2, s.v2 = rng(c.okv(u('msb')), c.okv(u('lsb')), 'MsbLsb')
        s.v3 = c.struct(BR, dict(offset=c.okv(u('bitOffset')), width=c.okv(u('bitWidth')), range_type=c.variant(BT, 'OffsetWidth')))
        s.hb, s.hm, s.ho = c.is_some(kid('bitRange')), has('lsb', 'msb'), has('bitOffset', 'bitWidth')
def check_bits(ck):
    c = ck.c
    ck.rule('bit range: [msb:lsb] wins over lsb/msb, which wins over bitOffset/bitWidth; offset = lsb, width = msb-lsb+1; reversed or malformed ranges are errors; the notation used is recorded')
    def one():
        f, r, n, cfg = result_of(c, S('BitRange'))
        s = Bits(c, n)
        ok = ite(s.hb, b_and(s.ok1, s.g1), ite(s.hm, b_and(s.ok2, s.g2), b_and(s.ho, s.ok3)))
        val = ite(s.hb, s.v1, ite(s.hm, s.v2, s.v3))
        agree(ck, f, r, ok, val, 'bit range', {k: (lambda v, k=k: G(c, v, 'BitRange', k), G(c, val, 'BitRange', k)) for k in c.fields(BR)})
    ck.guarded('bit range', one, anchor='Parse for BitRange')

# ------------------------------------------------------------ keywords
KEYWORDS = {
 'Access': {'ReadOnly': 'read-only', 'ReadWrite': 'read-write', 'ReadWriteOnce': 'read-writeOnce', 'WriteOnce': 'writeOnce', 'WriteOnly': 'write-only'},
 'Usage': {'Read': 'read', 'Write': 'write', 'ReadWrite': 'read-write'},
 'Endian': {'Little': 'little', 'Big': 'big', 'Selectable': 'selectable', 'Other': 'other'},
 'Protection': {'Secure': 's', 'NonSecure': 'n', 'Privileged': 'p'},
 'ReadAction': {'Clear': 'clear', 'Set': 'set', 'Modify': 'modify', 'ModifyExternal': 'modifyExternal'},
 'ModifiedWriteValues': {k[0].upper() + k[1:]: k for k in ('oneToClear', 'oneToSet', 'oneToToggle', 'zeroToClear', 'zeroToSet', 'zeroToToggle', 'clear', 'set', 'modify')},
 'AddressBlockUsage': {'Registers': 'registers', 'Buffer': 'buffer', 'Reserved': 'reserved'},
 'DataType': dict([('%s%d%s' % (s, b, p), '%sint%d_t%s' % (u, b, w)) for s, u in (('U', 'u'), ('I', '')) for b in (8, 16, 32, 64) for p, w in (('', ''), ('Ptr', ' *'))]),
}
def check_keywords(ck):
    c = ck.c
    ck.rule('keyword tables of the CMSIS-SVD schema: reading a word gives exactly the value it stands for, any other word is rejected, and the word written for a value is that word')
    for n, tab in KEYWORDS.items():
        def one(n=n, tab=tab):
            ty = sty(c, n)
            vs = c.variants(ty)
            if set(vs) != set(tab): raise SpecGap('%s has the values %s' % (n, vs))
            f = c.fn(ty + '::parse_str'); r = c.run(f); (t,) = c.args(f)
            if STRICT[0]:
                g = mk_case(t, {w: TRUE for w in tab.values()}, FALSE)
                ck.same(f, 'no word outside the table is accepted', b_or(b_not(c.is_some(r.ret)), g), TRUE, notes=r.notes)
            else:
              for v, w in tab.items():
                ck.same(f, 'word %r' % w, assume(r.ret, t, w), SOME(c.variant(ty, v)), notes=r.notes)
            if not STRICT[0]: ck.same(f, 'any other word is rejected', r.ret, mk_case(t, {w: SOME(c.variant(ty, v)) for v, w in tab.items()}, NONE()), notes=r.notes)
            f = c.fn(ty + '::as_str'); r = c.run(f); (x,) = c.args(f)
            for v, w in () if STRICT[0] else tab.items():
                ck.same(f, 'word written for %s' % v, subst(r.ret, {x: c.variant(ty, v)}), lstr(w), notes=r.notes)
            f, r, node, cfg = result_of(c, ty)
            t = raw_text(node); tt = trimmed(c.some(t))
            want = mk_case(tt, {w: SOME(c.variant(ty, v)) for v, w in tab.items()}, NONE())
            agree(ck, f, r, b_and(c.is_some(t), c.is_some(want)), c.some(want), 'element content')
        ck.guarded('keywords of ' + n, one, anchor=n)

# ------------------------------------------------------------ errors
def err_leaves(t):
    return leafset(t)
def check_errors(ck):
    """every error returned by a reader is located at a node"""
    c = ck.c
    ck.rule('error location: an error of a reader is either the error of a nested reader, unchanged, or located at the element being read (or, in lists, the offending child element)')
    for (m, ty), fs in sorted(c.byimpl.items()):
        if m != 'Parse::parse': continue
        for f in fs:
            if f['key'] in c.private_readers(): continue
            def one(f=f, ty=ty):
                r = c.run(f, opaque(c) + ['*::build'])
                n, cfg = c.args(f)
                bad = located(c, r.ret, n)
                if bad is None: ck.ok(f, 'every error is located')
                else:
                    tn = tainted(bad)
                    if tn is not None: ck.unk(f, 'every error is located', 'uninterpreted: ' + cut(show(tn)))
                    else: ck.viol(f, 'every error is located', 'error value %s is neither a nested error nor located at the element read' % cut(show(bad, 0, 8)))
            ck.guarded('errors of %s' % ty, one, anchor=ty)
def located(c, ret, n):
    """an error that does not say where (None: all do)"""
    seen = set()
    here = loc(n)
    def nodes_ok(i, under):
        """node id terms allowed: the element itself, or a child element picked from its children"""
        for l in leafset(i):
            if l is here: continue
            if l.op == 'call' and l.a[0] == 'nodeid' and is_desc(l.a[1], n): continue
            # location of a nested error
            if l.op == 'fld' and nested_err(l.a[0]): continue
            return l
        return None
    def go(t):
        if t in seen: return None
        seen.add(t)
        if t.op == 'case':
            for x in [x for _, x in t.a[1]] + ([t.a[2]] if t.a[2] is not None else []):
                b = go(x)
                if b is not None: return b
            return None
        if t.op == 'adt' and t.a[0] == 'Result' and t.a[1] == 1: return err(t.a[2])
        if t.op == 'adt' and t.a[0] == 'Result': return None
        if t.op == 'call' and t.a[0].startswith(PP): return None
        return t
    def nested_err(e): return e.op == 'fld' and e.a[1] == 1 and e.a[0].op == 'call' and e.a[0].a[0].startswith(PP)
    def err(e):
        for l in leafset(e):
            if nested_err(l): continue
            if l.op == 'adt' and l.a[0].endswith('SVDErrorAt'):
                # the content of a nested error must keep the position of that error
                for x in subterms(l):
                    if nested_err(x) and not any(y.op == 'fld' and y.a[0] is x and y.a[2] == 1 for y in subterms(l)): return l
                i = [k for k, (nm, _) in enumerate(c.P.adt_by_name['svd_parser::SVDErrorAt']['v'][0]['f']) if nm == 'id'][0]
                b = nodes_ok(l.a[2 + i], e)
                if b is not None: return b
                continue
            return l
        return None
    return go(ret)
def is_desc(x, n):
    """x is n or a child reached from it"""
    k = 0
    while x is not n and k < 12:
        k += 1
        if x.op == 'fld' and x.a[0].op == 'first': x = x.a[0].a[0]
        elif x.op == 'call' and x.a[0] == 'children': x = x.a[1]
        elif x.op == 'elem': x = x.a[0]
        else: return False
    return x is n
