"""Shared vocabulary of the specifications: the data model of svd-rs."""
from .spec import *
LVL = 'svd_rs::ValidateLevel'
MA = 'svd_rs::MaybeArray'
RC = 'svd_rs::RegisterCluster'
STRUCT = {n: 'svd_rs::' + n for n in ('Device', 'Cpu', 'PeripheralInfo', 'ClusterInfo', 'RegisterInfo', 'FieldInfo', 'EnumeratedValue', 'EnumeratedValues',
          'DimElement', 'AddressBlock', 'Interrupt', 'RegisterProperties', 'BitRange', 'DimArrayIndex', 'WriteConstraintRange', 'SauRegionsConfig', 'SauRegion')}
STRUCT['DimArrayIndex'] = 'svd_rs::dimelement::DimArrayIndex'
def sty(c, n):
    for p, t in c.P.adt_by_name.items():
        if p.split('::')[-1] == n and p.startswith('svd_rs::') and '_::' not in p and t.get('v'): return p
    raise Missing('type ' + n)
def info(c, x):
    """the element under a single-or-array element"""
    return c.match(x, MA, {'Single': fld(x, 0, 0), 'Array': fld(x, 1, 0)})
def is_array(c, x): return c.is_variant(x, MA, 'Array')
def dimof(c, x): return fld(x, c.vi(MA, 'Array'), 1)
def single(c, x): return c.variant(MA, 'Single', x)
def array(c, x, d): return c.variant(MA, 'Array', x, d)
def G(c, x, n, f): return c.F(x, sty(c, n), f)
def payloads(c, L, var):
    """the elements of one kind among registers and clusters"""
    return leafs.only_variant(c.E, L, var)
def reglist(c, x, n):
    """direct children of a peripheral or cluster"""
    if n == 'PeripheralInfo':
        r = G(c, x, n, 'registers')
        return ite(c.is_some(r), c.some(r), EMPTYL)
    return G(c, x, n, 'children')
def level(c, lvl, *vs): return c.is_variant(lvl, LVL, *vs)
def strict(c, l): return level(c, l, 'Strict')
def enabled(c, l): return level(c, l, 'Weak', 'Strict')
