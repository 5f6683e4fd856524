"""Serialization (serde feature of svd-rs): what is written is read back.

The derived implementations are decided from the attributes they are derived
from (with the semantics serde documents for them); the hand-written ones are
analysed as every other function, instantiated at a serializer and a
deserializer of the client crate."""
import re
from .data import *
from .spec import subterms
from engine.terms import *
from engine import terms as tm

SER, DE = 'serde::Serialize::serialize', 'serde::Deserialize::deserialize'
ROOTS = ('Device', 'PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo', 'EnumeratedValues', 'EnumeratedValue', 'WriteConstraint', 'WriteConstraintRange',
         'Cpu', 'AddressBlock', 'Interrupt', 'RegisterProperties', 'BitRange', 'DimElement', 'DimArrayIndex', 'RegisterCluster', 'MaybeArray',
         'Access', 'Protection', 'ReadAction', 'ModifiedWriteValues', 'Usage', 'Endian', 'DataType', 'AddressBlockUsage')
# not part of what is serialized: reset to the schema this crate implements
NOT_WRITTEN = {('Device', 'xmlns_xs'), ('Device', 'no_namespace_schema_location'), ('Device', 'schema_version')}
BY_HAND = ('MaybeArray', 'BitRange')

# ------------------------------------------------------------ attributes
def split_top(s):
    out = []; depth = 0; cur = ''; q = False; i = 0
    while i < len(s):
        ch = s[i]
        if q:
            cur += ch
            if ch == '\\': i += 1; cur += s[i]
            elif ch == '"': q = False
        elif ch == '"': q = True; cur += ch
        elif ch in '([{<': depth += 1; cur += ch
        elif ch in ')]}>': depth -= 1; cur += ch
        elif ch == ',' and depth <= 0: out.append(cur); cur = ''
        else: cur += ch
        i += 1
    out.append(cur)
    return [x.strip() for x in out if x.strip()]
def lit(s):
    s = s.strip()
    m = re.match(r'^"(.*)"$', s, re.S)
    return re.sub(r'\\(.)', r'\1', m.group(1)) if m else s
class Attrs(dict):
    """name → list of values: None (bare), a string, or a dict for a list in parentheses"""
    def __init__(s, texts):
        for t in texts:
            for e in split_top(t):
                m = re.match(r'^(\w+)\s*\((.*)\)$', e, re.S)
                if m: s.setdefault(m.group(1), []).append(dict((lambda k: (k[0].strip(), lit(k[1]) if len(k) > 1 else None))(x.split('=', 1)) for x in split_top(m.group(2))))
                else:
                    k = e.split('=', 1)
                    s.setdefault(k[0].strip(), []).append(lit(k[1]) if len(k) > 1 else None)
    def one(s, k):
        v = s.get(k)
        return v[-1] if v else None
    def sides(s, k):
        """(serialize, deserialize) value of an attribute that may have two"""
        v = s.one(k)
        if isinstance(v, dict): return v.get('serialize'), v.get('deserialize')
        return v, v
KNOWN_TYPE = {'rename', 'rename_all', 'deny_unknown_fields', 'default', 'untagged', 'bound', 'crate', 'expecting', 'rename_all_fields'}
KNOWN_VARIANT = {'rename', 'rename_all', 'alias', 'skip', 'skip_serializing', 'skip_deserializing', 'bound', 'other'}
KNOWN_FIELD = {'rename', 'alias', 'default', 'flatten', 'skip', 'skip_serializing', 'skip_deserializing', 'skip_serializing_if', 'serialize_with', 'deserialize_with', 'with', 'bound', 'borrow'}

def words_of_variant(n):
    """serde's snake_case of a variant name"""
    r = ''
    for i, ch in enumerate(n):
        if i and ch.isupper(): r += '_'
        r += ch.lower()
    return r
def pascal(n):
    r = ''; up = True
    for ch in n:
        if ch == '_': up = True
        else: r += ch.upper() if up else ch; up = False
    return r
def renamed(n, rule, variant):
    if rule is None: return n
    snake = words_of_variant(n) if variant else n
    pas = n if variant else pascal(n)
    f = {'lowercase': lambda: n.lower() if variant else n, 'UPPERCASE': lambda: n.upper(), 'PascalCase': lambda: pas, 'camelCase': lambda: pas[:1].lower() + pas[1:],
         'snake_case': lambda: snake, 'SCREAMING_SNAKE_CASE': lambda: snake.upper(), 'kebab-case': lambda: snake.replace('_', '-'),
         'SCREAMING-KEBAB-CASE': lambda: snake.upper().replace('_', '-')}.get(rule)
    if f is None: raise SpecGap('rename_all = %r' % rule)
    return f()

class Field:
    def __init__(s, name, at, ty, rules):
        s.name = name.replace('r#', ''); s.at = Attrs(at); s.ty = ty
        w, r = s.at.sides('rename')
        s.wname = w or renamed(s.name, rules[0], False); s.rname = r or renamed(s.name, rules[1], False)
        s.reads = {s.rname} | {a for a in s.at.get('alias', ())}
        s.flatten = 'flatten' in s.at
        s.nowrite = 'skip' in s.at or 'skip_serializing' in s.at
        s.noread = 'skip' in s.at or 'skip_deserializing' in s.at
        s.option = re.match(r'^(std|core)::option::Option<', ty) is not None
        s.with_w = s.at.one('serialize_with') or (s.at.one('with') and s.at.one('with') + '::serialize')
        s.with_r = s.at.one('deserialize_with') or (s.at.one('with') and s.at.one('with') + '::deserialize')
class Variant:
    def __init__(s, name, at, fields, ctor, outer):
        s.name = name; s.at = Attrs(at); s.kind = {0: 'struct', 1: 'tuple', 2: 'unit'}[ctor]
        w, r = s.at.sides('rename'); a, b = outer.at.sides('rename_all')
        s.wname = w or renamed(name, a, True); s.rname = r or renamed(name, b, True)
        s.reads = {s.rname} | set(s.at.get('alias', ()))
        inner = s.at.sides('rename_all')
        if inner == (None, None): inner = outer.at.sides('rename_all_fields')
        if not outer.enum: inner = outer.at.sides('rename_all')
        s.fields = [Field(*f, inner) for f in fields]
class Data:
    def __init__(s, r):
        s.n = r['n']; s.sp = r['sp']; s.enum = r['enum']; s.at = Attrs(r['at'])
        s.short = s.n.split('::')[-1]
        s.variants = [Variant(v[0], v[1], v[2], v[3], s) for v in r['v']]
        s.fields = s.variants[0].fields if not s.enum and s.variants else []
        s.untagged = 'untagged' in s.at

class World:
    def __init__(s, c):
        s.c = c; s.raw = {n: r for n, r in c.P.attrs.items() if r['cr'] == 'svd_rs' and '_::' not in n}
        s.memo = {}
        s.impls = {}
        for r in c.P.impls:
            m = re.match(r'^<(.*) as (.*)>$', r['trait'] or '')
            if not m: continue
            tr = m.group(2).split('<')[0].split('::')[-1]
            if tr in ('Serialize', 'Deserialize'): s.impls[(re.sub(r'<.*', '', r['self']), tr)] = r['derived']
    def data(s, n):
        if n not in s.memo:
            if n not in s.raw: raise Missing('type ' + n)
            s.memo[n] = Data(s.raw[n])
        return s.memo[n]
    def named(s, short):
        l = [n for n in s.raw if n.split('::')[-1] == short]
        if not l: raise Missing('type ' + short)
        return s.data(l[0])
    def mentioned(s, ty):
        return [n for n in re.findall(r'svd_rs::[\w:]+', ty) if n in s.raw]
    def closure(s):
        todo = [s.named(n).n for n in ROOTS if any(x.split('::')[-1] == n for x in s.raw)]; seen = []
        # and whatever else is derived for both directions
        todo += [n for n in s.raw if (n, 'Serialize') in s.impls and (n, 'Deserialize') in s.impls]
        while todo:
            n = todo.pop(0)
            if n in seen: continue
            seen.append(n)
            for v in s.data(n).variants:
                for f in v.fields: todo += s.mentioned(f.ty)
        return seen
    def wire(s, n):
        """the type a hand-written implementation goes through"""
        return {'BitRange': s.named('SerBitRange').n}.get(n.split('::')[-1], n)
    def names(s, n, side, seen=()):
        """names of the entries a value of this type is written as (read from)"""
        if n in seen: return set()
        seen += (n,); d = s.data(s.wire(n)); out = []
        if d.enum and not d.untagged: raise SpecGap('%s is flattened and is an enumeration' % d.n)
        alts = []
        for v in d.variants:
            l = []
            for f in v.fields:
                if f.flatten:
                    for m in s.mentioned(f.ty): l += sorted(s.names(m, side, seen))
                elif not (f.nowrite if side == 'w' else f.noread): l += [f.wname] if side == 'w' else sorted(f.reads)
            alts += l
        return set(alts)

ZERO = re.compile(r'^(u|i)(8|16|32|64|128|size)$')
def default_of(c, ty, mod):
    """value of Default::default() of a property's type"""
    if re.match(r'^(std|core)::option::Option<', ty): return NONE()
    if re.match(r'^(std|alloc)::vec::Vec<', ty): return EMPTYL
    if ty == 'bool': return FALSE
    if ZERO.match(ty): return lint(0)
    if ty == 'std::string::String': return lstr('')
    l = [f for f in c.P.fns.values() if f['ti'] == 'std::default::Default::default' and c.P.types[f['locals'][0]]['s'] == ty]
    if not l: raise SpecGap('default of ' + ty)
    return c.run(l[0]).ret
def local_fn(c, path, near):
    """a function named by an attribute, seen from the module of `near`"""
    mod = near.rsplit('::', 1)[0]
    cands = [f for f in c.P.fns.values() if f['kind'] == 'fn' and f['cr'] == 'svd_rs' and re.sub(r'::<.*?>', '', f['name']).split('::')[-len(path.split('::')):] == path.split('::')[-len(path.split('::')):]]
    return cands
STD_PRED = {'Option::is_none': lambda c, x: b_not(c.is_some(x)), 'Option::is_some': lambda c, x: c.is_some(x), 'Vec::is_empty': lambda c, x: b_not(c.nonempty(x)),
            'String::is_empty': lambda c, x: tm.eq(x, lstr('')), '<[_]>::is_empty': lambda c, x: b_not(c.nonempty(x)), 'str::is_empty': lambda c, x: tm.eq(x, lstr(''))}

def check_names(ck):
    c = ck.c; w = World(c)
    ck.rule('every data type is both written and read, each property under one name, and no two properties of one written map under the same')
    def impls():
        for n in w.closure():
            for tr in ('Serialize', 'Deserialize'):
                d = w.data(n)
                if (n, tr) in w.impls: ck.ok(n, 'implements ' + tr)
                elif (n, 'Serialize') not in w.impls and (n, 'Deserialize') not in w.impls and not any(x.split('::')[-1] == d.short for x in map(str, ROOTS)): continue
                else: ck.viol(n, 'implements ' + tr, '%s has no implementation of %s (%s)' % (n, tr, d.sp))
    ck.guarded('implementations', impls, anchor='svd_rs')
    def one(n):
        d = w.data(n)
        unknown = [k for k in d.at if k not in KNOWN_TYPE] + [k for v in d.variants if d.enum for k in v.at if k not in KNOWN_VARIANT] + [k for v in d.variants for f in v.fields for k in f.at if k not in KNOWN_FIELD]
        if unknown: return ck.unk(n, 'attributes', 'no rule for serde(%s)' % ', '.join(unknown))
        if not all(w.impls.get((n, t), True) for t in ('Serialize', 'Deserialize')) and d.short not in BY_HAND:
            return ck.unk(n, 'attributes', 'implementation written by hand')
        for v in d.variants:
            for f in v.fields:
                what = 'name of %s' % f.name
                if (d.short, f.name) in NOT_WRITTEN and f.nowrite and f.noread: ck.ok(n, what + ' (not part of the serialized form)'); continue
                if f.nowrite or f.noread:
                    ck.viol(n, what, '%s of %s is never %s: its value is lost (%s)' % (f.name, n, 'written' if f.nowrite else 'read', d.sp)); continue
                if v.kind == 'tuple' or f.flatten: continue
                if f.wname in f.reads: ck.ok(n, what)
                else: ck.viol(n, what, '%s of %s is written as %r and read as %s (%s)' % (f.name, n, f.wname, sorted(f.reads), d.sp))
            # one map: own entries and those of flattened parts
            for side in 'wr':
                own = [(x, f.name) for f in v.fields if not f.flatten and v.kind == 'struct' and not (f.nowrite if side == 'w' else f.noread) for x in ([f.wname] if side == 'w' else f.reads)]
                for f in v.fields:
                    if f.flatten:
                        for m in w.mentioned(f.ty): own += [(x, f.name + ': ' + m.split('::')[-1]) for x in w.names(m, side)]
                dup = sorted({x for x, _ in own if len({o for y, o in own if y == x}) > 1})
                what = 'distinct names %s' % ('written' if side == 'w' else 'read') + (' in ' + v.name if d.enum else '')
                if dup: ck.viol(n, what, 'several properties of %s are %s under %r: %s (%s)' % (n, 'written' if side == 'w' else 'read', dup[0], sorted(o for y, o in own if y == dup[0]), d.sp))
                else: ck.ok(n, what)
        if d.enum:
            for v in d.variants:
                what = 'variant ' + v.name
                if any(k in v.at for k in ('skip', 'skip_serializing', 'skip_deserializing')): ck.viol(n, what, '%s::%s is not written or not read (%s)' % (n, v.name, d.sp)); continue
                if d.untagged or v.wname in v.reads: ck.ok(n, what)
                else: ck.viol(n, what, '%s::%s is written as %r and read as %s (%s)' % (n, v.name, v.wname, sorted(v.reads), d.sp))
            if not d.untagged:
                for side in 'wr':
                    l = [(x, v.name) for v in d.variants for x in ([v.wname] if side == 'w' else v.reads)]
                    dup = sorted({x for x, _ in l if len({o for y, o in l if y == x}) > 1})
                    if dup: ck.viol(n, 'distinct variant names', 'several variants of %s are called %r: %s (%s)' % (n, dup[0], sorted(o for y, o in l if y == dup[0]), d.sp))
                    else: ck.ok(n, 'distinct variant names, ' + ('written' if side == 'w' else 'read'))
    for n in w.closure():
        if n.split('::')[-1] not in BY_HAND: ck.guarded('names', lambda n=n: one(n), anchor=n, private=True)
    # the maps of single or arrayed elements: dimension and element side by side
    def arrays(st):
        el, dim = w.named(st), w.named('DimElement')
        for side in 'wr':
            both = w.names(el.n, side) & w.names(dim.n, side)
            what = 'names of %s differ from those of the dimension, %s' % (st, 'written' if side == 'w' else 'read')
            if both: ck.viol(el.n, what, '%s and the dimension of an array share %s (%s)' % (st, sorted(both), el.sp))
            else: ck.ok(el.n, what)
    for st in ('PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo'): ck.guarded('arrays of ' + st, lambda st=st: arrays(st), anchor=st, private=True)

def optional(w, f, d):
    """a value for the property exists when its entry is absent"""
    return 'default' in f.at or 'default' in d.at or (f.option and not f.with_r) or f.noread
def check_omitted(ck):
    c = ck.c; w = World(c)
    ck.rule('a property that serialization may leave out reads as the value it was left out for')
    def one(n):
        d = w.data(n)
        for v in d.variants:
            for f in v.fields:
                pred = f.at.one('skip_serializing_if')
                if pred is None: continue
                what = 'omitted ' + f.name
                if not optional(w, f, d):
                    ck.viol(n, what, '%s of %s is left out when %s and required when reading (%s)' % (f.name, n, pred, d.sp)); continue
                x = mk('sym', '$v', f.ty)
                if f.option: x = mk('sym', '$v', 'Option'); tm.DOM.setdefault(mk('disc', x), (0, 1)); tm.ENUMTY.setdefault(x, 'Option')
                def value():
                    if 'default' in f.at:
                        p = f.at.one('default')
                        if p is None: return default_of(c, f.ty, n)
                        l = local_fn(c, p, n)
                        if not l: raise SpecGap('default = ' + p)
                        return c.run(l[0]).ret
                    if 'default' in d.at: raise SpecGap('default of the whole ' + n)
                    return NONE()
                val = value()
                key = pred.split('std::option::')[-1].split('std::vec::')[-1].split('std::string::')[-1]
                key = re.sub(r'::<.*?>', '', key)
                if key in STD_PRED:
                    if key.startswith('Option') and f.option: g = STD_PRED[key](c, x)
                    elif key.startswith(('Vec', '<[')) and 'Vec<' in f.ty and not f.option: g = STD_PRED[key](c, x)
                    elif key.startswith('String') and f.ty.endswith('String'): g = STD_PRED[key](c, x)
                    else: raise SpecGap('%s of a %s' % (pred, f.ty))
                    if f.option: good = (key == 'Option::is_none' and val is NONE())
                    elif 'Vec' in f.ty: good = val is EMPTYL
                    else: good = val is lstr('')
                    if good: ck.ok(n, what)
                    else: ck.viol(n, what, '%s of %s is left out when %s, and is then read as %s (%s)' % (f.name, n, pred, show(val), d.sp))
                    continue
                l = [g for g in local_fn(c, pred, n) if g['argc'] == 1 and c.P.types[c.P.strip_ref(g['locals'][1])]['s'].replace('core::', 'std::') == f.ty]
                if not l: raise SpecGap('skip_serializing_if = ' + pred)
                g = l[0]; r = c.run(g); a = c.args(g)[0]
                if f.option and val is NONE(): ck.same(g, 'leaves out %s of %s only when it reads as that' % (f.name, d.short), c.is_some(a), FALSE, under=r.ret, notes=r.notes)
                elif 'Vec<' in f.ty and val is EMPTYL: ck.same(g, 'leaves out %s of %s only when it reads as that' % (f.name, d.short), c.nonempty(a), FALSE, under=r.ret, notes=r.notes)
                else: ck.same(g, 'leaves out %s of %s only when it reads as that' % (f.name, d.short), a, val, under=r.ret, notes=r.notes)
    for n in w.closure():
        if n.split('::')[-1] in BY_HAND: continue
        def each(n=n):
            try: one(n)
            except SpecGap as e: ck.unk(n, 'omitted', str(e))
        ck.guarded('omitted', each, anchor=n, private=True)

def check_shape(ck):
    c = ck.c; w = World(c)
    ck.rule('the form that is written is recognised again: untagged alternatives exclude each other, a dimension is required, unknown entries are tolerated where parts share a map')
    def untagged(d):
        for j, v in enumerate(d.variants):
            what = 'not mistaken for an earlier alternative: ' + v.name
            bad = None
            for u in d.variants[:j]:
                if u.kind == 'struct' and v.kind == 'struct':
                    need = [f for f in u.fields if not f.flatten and not optional(w, f, d)]
                    wr = {f.wname for f in v.fields}
                    if all(f.reads & wr for f in need): bad = u
                elif u.kind == v.kind == 'tuple' and len(u.fields) == len(v.fields) == 1:
                    a, b = u.fields[0].ty, v.fields[0].ty
                    kind = lambda t: 'seq' if re.match(r'^(std|alloc)::vec::Vec<', t) else 'str' if t == 'std::string::String' else 'int' if ZERO.match(t) else 'bool' if t == 'bool' else None
                    el = lambda t: next((x for x in reversed(w.mentioned(t)) if not w.data(x).enum), None)
                    if kind(a) and kind(b): bad = u if kind(a) == kind(b) else None
                    elif el(a) and el(b):
                        need = [f for f in w.data(el(a)).fields if not f.flatten and not optional(w, f, w.data(el(a)))]
                        if all(f.reads & w.names(el(b), 'w') for f in need): bad = u
                    elif not (kind(a) and el(b)) and not (kind(b) and el(a)): raise SpecGap('untagged %s' % d.n)
                else: raise SpecGap('untagged %s' % d.n)
            if bad: ck.viol(d.n, what, 'what is written for %s::%s is read as %s (%s)' % (d.n, v.name, bad.name, d.sp))
            else: ck.ok(d.n, what)
    for n in w.raw:
        d = w.data(n)
        if d.untagged: ck.guarded('untagged', lambda d=d: untagged(d), anchor=n, private=True)
    def dim():
        d = w.named('DimElement')
        req = [f.name for f in d.fields if not f.flatten and not optional(w, f, d)]
        if req: ck.ok(d.n, 'absent unless written')
        else: ck.viol(d.n, 'absent unless written', 'every property of %s is optional: a single element is read as an array (%s)' % (d.n, d.sp))
    ck.guarded('dimension', dim, anchor='DimElement', private=True)
    def deny(n):
        d = w.data(n)
        if 'deny_unknown_fields' not in d.at: return ck.ok(n, 'unknown entries tolerated')
        fl = [f for v in d.variants for f in v.fields if f.flatten]
        def consumes(ty):
            """a flattened struct without flattened parts takes its entries out of the map"""
            m = w.mentioned(ty)
            if not m: raise SpecGap('flattened ' + ty)
            return all(not w.data(x).enum and w.data(x).short not in BY_HAND and not any(g.flatten for g in w.data(x).fields) for x in m)
        bad = [f for f in fl if not consumes(f.ty)]
        if bad: ck.viol(n, 'unknown entries tolerated', '%s refuses unknown entries, and those of %s are unknown to it (%s)' % (n, bad[0].name, d.sp))
        elif fl: ck.unk(n, 'unknown entries tolerated', 'deny_unknown_fields with flattened parts')
        else: ck.ok(n, 'unknown entries tolerated')
    for n in w.raw:
        if (n, 'Deserialize') in w.impls and n.split('::')[-1] not in BY_HAND: ck.guarded('unknown entries', lambda n=n: deny(n), anchor=n, private=True)

# ------------------------------------------------------------ written by hand
def at_client(c, names, side):
    """instances at the client's serializer or deserializer"""
    l = [f for n in names for f in c.P.by_name.get(n, ()) if f['kind'] == 'fn' and any('serial::' + side == c.P.types[a]['s'].split('svd_client::')[-1] for a in f['args'])]
    return l
def opaque(c):
    return [f['name'] for f in c.P.fns.values() if f['cr'] == 'svd_client'] + [SER, DE, 'svd_rs::DimElement::parse_indexes']
def find_impl(c, tr, ty):
    return [n for n in c.P.by_name if re.search(r'(^<|<impl )', n) and '_::' not in n and '{closure' not in n and n.endswith('::' + tr.split('::')[-1]) and tr.split('::')[-2] in n and re.search(r'\b%s\b' % ty, n)]
def type_arg(name):
    """X of `…serialize[X,S]`"""
    m = re.search(r'(?:de)?serialize\[(.*), ?(?:svd_client::)?serial::[SD]\]$', name)
    return m.group(1) if m else None
def strip(t): return re.sub(r"'\w+,? ?", '', t).replace('<>', '').replace('&', '').strip()
def sources(t):
    """what a value is deserialized from: the deserialize calls in it"""
    return [x for x in subterms(t) if x.op == 'call' and '::deserialize[' in x.a[0]]
def agree(ck, f, what, found, want, under, notes):
    """reads as `want` (a value that is accepted)"""
    a = ck.same(f, what + ': accepted', ck.c.is_ok(found), TRUE, under=under, notes=notes)
    if a: ck.same(f, what + ': the same value', ck.c.okv(found), want, under=under, notes=notes)

def check_hand(ck):
    c = ck.c; w = World(c)
    ck.rule('a single or arrayed element is written as its own entries, with those of its dimension exactly for an array, and read as an array exactly when there is a dimension')
    def arr(st):
        T = sty(c, st); D = sty(c, 'DimElement')
        of = lambda fs: [f for f in fs if any(c.P.types[a]['s'] == T for a in f['args'])]
        fw, fr = (of(at_client(c, find_impl(c, tr, 'MaybeArray'), s)) for tr, s in ((SER, 'S'), (DE, 'D')))
        if not fw or not fr: raise Missing('serialization of MaybeArray<%s>' % st)
        fw, fr = fw[0], fr[0]
        rw, rr = c.run(fw, opaque=opaque(c)), c.run(fr, opaque=opaque(c))
        x = c.args(fw)[0]
        src = sources(rr.ret)
        if len(src) != 1: raise SpecGap('read from %d places' % len(src))
        src = src[0]; Y = type_arg(src.a[0])
        if Y is None: raise SpecGap(src.a[0])
        for arrayed in (False, True):
            under = is_array(c, x) if arrayed else b_not(is_array(c, x))
            what = 'an array' if arrayed else 'a single element'
            put = assume(rw.ret, mk('disc', x), 1 if arrayed else 0)
            if put.op != 'call' or not put.a[0].startswith(SER + '['): raise SpecGap('written through ' + show(put, 0, 2))
            X = type_arg(put.a[0]); v = put.a[1]
            if X is None: raise SpecGap(put.a[0])
            # part → value; entry: the name it is written under, None when its entries are side by side with the others
            entry = {}
            def parts(X, v, name=None):
                if strip(X) in (T, D): entry[strip(X)] = name; return {strip(X): v}
                d = w.data(re.sub(r'<.*', '', X.replace('&', '')))
                if name is not None: raise SpecGap('%s is an entry of its own' % d.n)
                out = {}
                for i, f in enumerate(d.fields):
                    t = strip(f.ty).lstrip('& ')
                    out.update(parts(T if t == 'T' else t, fld(v, 0, i), None if f.flatten else f.wname))
                return out
            got = parts(X, v)
            want = {T: info(c, x)}
            if arrayed: want[D] = dimof(c, x)
            for t in sorted(set(got) | set(want)):
                w1 = 'written for %s: the %s' % (what, 'element' if t == T else 'dimension')
                if t not in got: ck.viol(fw, w1, 'the %s is not written' % t)
                elif t not in want: ck.viol(fw, w1, 'a %s is written that is not there' % t)
                else: ck.same(fw, w1, got[t], want[t], under=under, notes=rw.notes)
            d = w.data(re.sub(r'<.*', '', Y))
            vals = []; lost = False
            for f in d.fields:
                t = strip(f.ty)
                part = T if t in ('T', T) else D
                if part in entry and (f.flatten, None if f.flatten else f.rname) != (entry[part] is None, entry[part]):
                    lost = True
                    ck.viol(fr, 'read for ' + what, 'the %s is written %s and read %s (%s)' % (f.name, 'among the other entries' if entry[part] is None else 'under %r' % entry[part], 'from among them' if f.flatten else 'from %r' % f.rname, d.sp))
                if t == 'T' or t == T: vals.append(want[T])
                elif f.option and w.mentioned(t) == [D]: vals.append(SOME(want[D]) if D in want else NONE())
                else: raise SpecGap('read from a %s' % t)
            if lost: continue
            r = subst(rr.ret, {src: OK(adt(tm_name(Y), 0, *vals))})
            agree(ck, fr, 'read for ' + what, r, x, under, rr.notes)
    for st in ('PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo'): ck.guarded('arrays of ' + st, lambda st=st: arr(st), anchor='MaybeArray<%s>' % st, private=True)

    ck.rule('a bit range is read back as it was written, in the notation it was given in')
    def bits():
        B = sty(c, 'BitRange')
        fw, fr = (at_client(c, find_impl(c, tr, 'BitRange'), s) for tr, s in ((SER, 'S'), (DE, 'D')))
        if not fw or not fr: raise Missing('serialization of BitRange')
        fw, fr = fw[0], fr[0]
        rw, rr = c.run(fw, opaque=opaque(c)), c.run(fr, opaque=opaque(c))
        x = c.args(fw)[0]; off, wid = c.F(x, B, 'offset'), c.F(x, B, 'width')
        msb = sub(add(off, wid), lint(1))
        ok = b_and(lt(lint(0), wid), b_not(lt(lint((1 << 32) - 1), msb)))
        text = cat(lstr('['), call('dec', msb), lstr(':'), call('dec', off), lstr(']'))
        src = sources(rr.ret)
        if len(src) != 1: raise SpecGap('read from %d places' % len(src))
        src = src[0]; Y = type_arg(src.a[0])
        for l, g in tm.leaves(rw.ret):
            if l is BOT: continue
            if l.op != 'call' or not l.a[0].startswith(SER + '['): raise SpecGap('written through ' + show(l, 0, 2))
            if type_arg(l.a[0]) != Y: raise SpecGap('written as %s, read as %s' % (type_arg(l.a[0]), Y))
            for v, g2 in tm.leaves(l.a[1]):
                if v is BOT: continue
                under = b_and(ok, b_and(g, g2))
                if under is FALSE: continue
                what = 'written as ' + show(v, 0, 3)[:60]
                # a text it is written as: read by the rule for such texts
                texts = [k for k in range(len(v.a)) if isinstance(v.a[k], T) and v.a[k].op == 'call' and v.a[k].a[0] == 'cat' or isinstance(v.a[k], T) and v.a[k].op == 'cat']
                if texts:
                    k = texts[0]; t = v.a[k]; s = mk('sym', '$text', 'str')
                    if not ck.same(fw, what + ': the text of the range', t, text, under=under, notes=rw.notes): continue
                    r = subst(rr.ret, {src: OK(mk(v.op, *[s if i == k else a for i, a in enumerate(v.a)]))})
                    good, val = range_of_text(c, s)
                    ck.same(fr, what + ': read exactly when it is such a text', c.is_ok(r), good, notes=rr.notes)
                    ck.same(fr, what + ': read as these bits', c.okv(r), val, under=good, notes=rr.notes)
                    ck.same(fw, what + ': in its notation', c.F(x, B, 'range_type'), c.variant(sty(c, 'BitRangeType'), 'BitRange'), under=under, notes=rw.notes)
                else:
                    r = subst(rr.ret, {src: OK(v)})
                    agree(ck, fr, what, r, x, under, rr.notes)
    ck.guarded('bit ranges', bits, anchor='BitRange', private=True)

    ck.rule('the indices of an array are read back as they were written')
    def index():
        d = w.named('DimElement'); f = next((f for f in d.fields if f.name == 'dim_index'), None)
        if f is None: raise Missing('DimElement.dim_index')
        none = f.at.one('skip_serializing_if') is not None
        lst = mk('sym', '$indices', 'list')
        # what is written for some indices
        if f.with_w:
            l = at_client(c, [n for n in c.P.by_name if n.split('::')[-1] == f.with_w.split('::')[-1]], 'S')
            if not l: raise SpecGap('serialize_with = ' + f.with_w)
            fw = l[0]; rw = c.run(fw, opaque=opaque(c)); x = c.args(fw)[0]
            for y, g in tm.leaves(rw.ret):
                if y is BOT: continue
                if b_and(g, c.is_some(x)) is FALSE:
                    if not none: raise SpecGap('absent indices written')
                    continue
                if y.op != 'call' or not y.a[0].startswith('serde::Serializer::serialize_str'): raise SpecGap('written through ' + show(y, 0, 2))
                ck.same(fw, 'written as the indices separated by commas', y.a[2], leafs.join(c.some(x), lstr(',')), under=b_and(g, c.is_some(x)), notes=rw.notes)
            wire = 'str'
        else: wire = 'seq'; ck.ok(d.n, 'indices written as a list')
        if f.with_r:
            l = at_client(c, [n for n in c.P.by_name if n.split('::')[-1] == f.with_r.split('::')[-1]], 'D')
            if not l: raise SpecGap('deserialize_with = ' + f.with_r)
            fr = l[0]; rr = c.run(fr, opaque=opaque(c))
            src = sources(rr.ret)
            if len(src) != 1: raise SpecGap('read from %d places' % len(src))
            src = src[0]; Y = type_arg(src.a[0])
            m = re.match(r'^(?:std|core)::option::Option<(.*)>$', Y or '')
            if not m: raise SpecGap('read from ' + str(Y))
            e = m.group(1); text = mk('sym', '$text', 'str')
            sent = text if wire == 'str' else lst
            tys = {'str': 'std::string::String', 'seq': 'std::vec::Vec<std::string::String>'}
            if e == tys[wire]: val = sent
            elif e in w.raw and w.data(e).untagged:
                vs = [i for i, v in enumerate(w.data(e).variants) if v.kind == 'tuple' and v.fields[0].ty == tys[wire]]
                if not vs: return ck.viol(fr, 'reads what is written', '%s accepts no %s' % (e, tys[wire]))
                val = adt(tm_name(e), vs[0], sent)
            else: raise SpecGap('read from ' + e)
            r = subst(rr.ret, {src: OK(SOME(val))})
            okg = c.is_ok(r)
            if wire == 'str':
                p = leafs.opt_call('svd_rs::DimElement::parse_indexes', text)
                ck.same(fr, 'accepted when the text is a list of indices', okg, c.is_some(p), notes=rr.notes)
                ck.same(fr, 'read as the indices of the text', c.okv(r), SOME(c.some(p)), under=c.is_some(p), notes=rr.notes)
            else:
                ck.same(fr, 'accepted', okg, TRUE, notes=rr.notes); ck.same(fr, 'read as the list', c.okv(r), SOME(lst), notes=rr.notes)
            r = subst(rr.ret, {src: OK(NONE())})
            ck.same(fr, 'absent indices stay absent', r, OK(NONE()), notes=rr.notes)
        elif wire == 'seq': ck.ok(d.n, 'indices read as a list')
        else: ck.viol(d.n, 'reads what is written', 'the indices are written as one text and read as a list (%s)' % d.sp)
    ck.guarded('indices', index, anchor='DimElement', private=True)
    # other properties written or read by functions of their own
    for n in w.closure():
        d = w.data(n)
        for v in d.variants:
            for f in v.fields:
                if (f.with_w or f.with_r) and (d.short, f.name) != ('DimElement', 'dim_index'):
                    ck.unk(n, f.name, 'written or read by a function of its own')

def range_of_text(c, t):
    """(accepted, bit range) of a text [msb:lsb], as BitRange::from_bit_range is specified (C35)"""
    B = sty(c, 'BitRange')
    parts = call('split', call('strslice', t, lint(1), sub(call('strlen', t), lint(1))), lstr(':'))
    nth = lambda k: c.E.head(leafs.skip(c.E, parts, lint(k)))
    num = lambda k: leafs.res_call('parse[u32]', c.some(nth(k)))
    m, l = c.okv(num(0)), c.okv(num(1)); d = sub(m, l); ok = TRUE
    for g in (atom_bool(call('starts', t, lstr('['))), atom_bool(call('ends', t, lstr(']'))), c.is_some(nth(0)), c.is_ok(num(0)), c.is_some(nth(1)), c.is_ok(num(1)), b_not(c.is_some(nth(2))),
              b_not(lt(m, l)), b_not(atom_bool(call('ovf:u32', add(d, lint(1)))))): ok = b_and(ok, g)
    return ok, c.struct(B, dict(offset=l, width=add(d, lint(1)), range_type=c.variant(sty(c, 'BitRangeType'), 'BitRange')))
def tm_name(ty):
    from engine import ev
    ty = re.sub(r'<.*', '', ty)
    return ev.NAMES.get(ty, ty)

# --------------------------------------------------------------------- panics
def check_aborts(ck):
    c = ck.c
    from . import model_abort as mab, model_panic as mp
    ck.rule('panic freedom of (de)serialization: in every implementation and function for it that is written by hand, each overflow, slice, index, unwrap, assertion or explicit panic is unreachable whatever is read, and whatever description is written')
    w = World(c); fields = [q for n in w.closure() for v in w.data(n).variants for q in v.fields]
    def one(f, read):
        r = c.run(f, opaque=opaque(c)); x = c.args(f)[0]; under = TRUE
        if not read:
            t = c.P.types[f['locals'][1]]; t = c.P.types[t['t']] if t['k'] == 'ref' else t
            under = mab.domain(c, f, c.args(f))
            # a function for an entry that is left out when absent
            for q in fields:
                if q.with_w and q.with_w.split('::')[-1] == f['name'].split('::')[-1] and q.at.one('skip_serializing_if') is not None: under = b_and(under, c.is_some(x))
        if not read: return mab.examine(ck, f, r, under)
        # what is read may be any value
        def judge(e):
            g, info = e['guard'], e['info']
            for y in {y for at in mab.atoms(g) for y in subterms(at) if y.op == 'call' and 'eserialize' in y.a[0] and c.args(f)[0] in y.a[1:]}:
                m = {y: mk('sym', '$data')}
                g, info = subst(g, m), info and tuple(subst(x, m) if isinstance(x, T) else x for x in info)
            return mp.judge(dict(e, guard=g, info=info))
        mp.report(ck, f, r, judge=judge)
    def go(read):
        side = 'D' if read else 'S'; tr = DE if read else SER
        hand = {q.with_r if read else q.with_w for q in fields} - {None}
        names = sorted({n for ty in ('MaybeArray', 'BitRange') for n in find_impl(c, tr, ty)} | {n for n in c.P.by_name if any(n.split('::')[-1] == h.split('::')[-1] for h in hand) and n.startswith('svd_rs')})
        fs = at_client(c, names, side)
        if not fs: raise Missing('nothing written by hand')
        for f in fs: ck.guarded('panic sites of ' + f['name'], lambda f=f: one(f, read), anchor=f['name'], private=True)
    for read in (True, False): ck.guarded('panic sites of ' + ('reading' if read else 'writing'), lambda read=read: go(read), anchor='svd_rs', private=True)
