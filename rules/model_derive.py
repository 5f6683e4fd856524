"""Deriving one element from another (svd-rs derive_from)."""
from .data import *

OR, EMPTY, NEST = 'or', 'if-empty', 'nested'
INHERIT = {
    'PeripheralInfo': dict(version=OR, description=OR, group_name=OR, prepend_to_name=OR, append_to_name=OR, header_struct_name=OR,
                           default_register_properties=NEST, registers=OR, address_block=OR, interrupt=EMPTY),
    'ClusterInfo': dict(description=OR, default_register_properties=NEST, header_struct_name=OR, children=EMPTY),
    'RegisterInfo': dict(description=OR, properties=NEST, datatype=OR, fields=OR, write_constraint=OR, read_action=OR, modified_write_values=OR),
    'RegisterProperties': dict(size=OR, access=OR, protection=OR, reset_value=OR, reset_mask=OR),
    'FieldInfo': dict(description=OR, access=OR, enumerated_values=EMPTY, write_constraint=OR, read_action=OR, modified_write_values=OR),
    'EnumeratedValues': dict(usage=OR, values=EMPTY),
}
def either(c, a, b): return ite(c.is_some(a), SOME(c.some(a)), ite(c.is_some(b), SOME(c.some(b)), NONE()))
def derived(c, n, x, o):
    ty = sty(c, n); d = {}
    for f in c.fields(ty):
        a, b = c.F(x, ty, f), c.F(o, ty, f)
        k = INHERIT[n].get(f)
        if k == OR: d[f] = either(c, a, b)
        elif k == EMPTY: d[f] = ite(c.nonempty(a), a, b)
        elif k == NEST: d[f] = derived(c, 'RegisterProperties', a, b)
        else: d[f] = a
    for f in INHERIT[n]:
        if f not in d: raise Missing('%s.%s' % (ty, f))
    return c.struct(ty, d)

def check(ck):
    c = ck.c
    ck.rule('derivation rule: an inheritable property is the own one if specified (a list: if not empty), else the other\'s; every other property is the own one')
    for n in INHERIT:
        ty = sty(c, n)
        def one(n=n, ty=ty):
            f = c.impl('DeriveFrom::derive_from', ty); r = c.run(f, ['none'], key='derive')
            x, o = c.args(f)
            want = derived(c, n, x, o)
            for fl in c.fields(ty):
                a, w = c.F(r.ret, ty, fl), c.F(want, ty, fl)
                k = INHERIT[n].get(fl)
                # an absent option is the same however it is written
                if k == OR: a = ite(c.is_some(a), SOME(c.some(a)), NONE())
                ck.same(f, 'property `%s`: %s' % (fl, {OR: 'own, else the other\'s', EMPTY: 'own unless empty', NEST: 'property-wise', None: 'own'}[k]), a, w, notes=r.notes)
        ck.guarded('derive %s' % n, one, anchor='DeriveFrom for ' + ty)
    ck.rule('an element that may be an array derives its contents the same way; it keeps its own dimension, and takes the other\'s only when it is single, has a '
            'placeholder in its name and the other is an array')
    for n in ('PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo'):
        def two(n=n):
            ty = sty(c, n)
            fs = [f for f in c.P.fns.values() if f['ti'] == 'svd_rs::DeriveFrom::derive_from' and 'MaybeArray<' in f['name'] and f['locals'] and c.P.types[f['locals'][0]]['s'].endswith('MaybeArray<%s>' % ty)]
            if not fs: raise Missing('DeriveFrom for MaybeArray<%s>' % ty)
            f = fs[0]; r = c.run(f, ['none'], key='derive')
            x, o = c.args(f)
            v = derived(c, n, info(c, x), info(c, o))
            DE = sty(c, 'DimElement')
            d2 = c.struct(DE, {k: (NONE() if k == 'dim_name' else c.F(dimof(c, o), DE, k)) for k in c.fields(DE)})
            ph = call('contains', c.F(info(c, x), ty, 'name'), lstr('%s'))
            ph = lift1(lambda t: atom_bool(t), ph)
            dim_owner = ite(is_array(c, x), SOME(dimof(c, x)), ite(b_and(is_array(c, o), ph), SOME(d2), NONE()))
            gd = ite(is_array(c, r.ret), SOME(dimof(c, r.ret)), NONE())
            ck.same(f, 'dimension of the derived element', gd, dim_owner, notes=r.notes)
            gi = info(c, r.ret)
            for fl in c.fields(ty):
                a, w = c.F(gi, ty, fl), c.F(v, ty, fl)
                if INHERIT[n].get(fl) == OR: a = ite(c.is_some(a), SOME(c.some(a)), NONE())
                ck.same(f, 'contents `%s` derived in every combination of single and array' % fl, a, w, notes=r.notes)
        ck.guarded('derive array of %s' % n, two, anchor='DeriveFrom for MaybeArray<%s>' % n)
