"""Iterators and lookups by name (svd-rs)."""
from .data import *

def check_iter(ck):
    c = ck.c
    ck.rule('an iterator over registers (clusters) delivers, in order, the elements of that kind of the list it was made from; `next` is verified for a list that '
            'starts with any element, by induction on the rest')
    # what the iterators are made from
    for n in ('PeripheralInfo', 'ClusterInfo'):
        ty = sty(c, n)
        for me, kind in (('registers', 'Register'), ('clusters', 'Cluster')):
            for suf in ('', '_mut'):
                def one(n=n, ty=ty, me=me, kind=kind, suf=suf):
                    f = c.fn('%s::%s%s' % (ty, me, suf)); r = c.run(f)
                    x = c.args(f)[0]
                    ck.same(f, 'delivers the %s among the direct children, in order' % me, leafs.as_list(c.E, r.ret), payloads(c, reglist(c, x, n), kind), notes=r.notes)
                ck.guarded('iterator source', one, anchor='%s::%s%s' % (ty, me, suf))
        for me in ('all_registers', 'reg_iter'):
            for suf in ('', '_mut'):
                def one(n=n, ty=ty, me=me, suf=suf):
                    f = c.fn('%s::%s%s' % (ty, me, suf)); r = c.run(f)
                    x = c.args(f)[0]
                    def nf(L): return lift1(lambda l: mk('call', 'allregs', l), L)
                    ck.same(f, 'starts from all direct children in order', leafs.as_list(c.E, r.ret), nf(reglist(c, x, n)), notes=r.notes)
                ck.guarded('iterator source', one, anchor='%s::%s%s' % (ty, me, suf))
    ty = sty(c, 'RegisterInfo')
    for suf in ('', '_mut'):
        def one(suf=suf):
            f = c.fn('%s::fields%s' % (ty, suf)); r = c.run(f)
            x = G(c, c.args(f)[0], 'RegisterInfo', 'fields')
            ck.same(f, 'delivers all fields in order', leafs.as_list(c.E, r.ret), ite(c.is_some(x), c.some(x), EMPTYL), notes=r.notes)
        ck.guarded('iterator source', one, anchor='%s::fields%s' % (ty, suf))
    # the `next` functions
    X, R = mk('sym', 'X', RC), mk('sym', 'rest', 'list')
    for it, kind in (('RegisterIter', 'Register'), ('RegisterIterMut', 'Register'), ('ClusterIter', 'Cluster'), ('ClusterIterMut', 'Cluster')):
        def one(it=it, kind=kind):
            p = sty(c, it)
            f = [g for g in c.P.fns.values() if g['ti'] == 'std::iter::Iterator::next' and g['name'].lstrip('<').split(' as ')[0].split('<')[0] == p]
            if not f: raise Missing('Iterator::next for ' + p)
            f = f[0]
            if len(c.fields(p)) != 1: raise SpecGap('state of ' + p)
            for what, L in (('an empty list', EMPTYL), ('a list starting with any element', mk_list([item(X), mk('spl', R)]))):
                r = run_self(c, f, adt(p, 0, L))
                want = c.E.head(payloads(c, L, kind))
                ck.same(f, 'first element of that kind of %s' % what, r.ret, want, notes=r.notes)
                if L is not EMPTYL:
                    ck.same(f, 'goes on after the element delivered', fld(r.out(1), 0, 0), R, under=c.is_variant(X, RC, kind), notes=r.notes)
        ck.guarded('next', one, anchor=it, private=True)
    ck.rule('depth-first traversal: each step takes the top of the stack of pending elements; a register is delivered, a cluster is replaced by its children, first child on top')
    for it in ('AllRegistersIter', 'AllRegistersIterMut'):
        def one(it=it):
            p = sty(c, it)
            f = [g for g in c.P.fns.values() if g['ti'] == 'std::iter::Iterator::next' and g['name'].lstrip('<').split(' as ')[0].split('<')[0] == p]
            if not f: raise Missing('Iterator::next for ' + p)
            f = f[0]
            check_dfs(ck, f, p)
        ck.guarded('next', one, anchor=it, private=True)
    ck.rule('a provided method of an iterator that is given its own body agrees with the one made from `next`')
    L = mk('sym', 'all', 'list')
    for it, kind in (('RegisterIter', 'Register'), ('RegisterIterMut', 'Register'), ('ClusterIter', 'Cluster'), ('ClusterIterMut', 'Cluster'), ('AllRegistersIter', None), ('AllRegistersIterMut', None), ('Indexes', None)):
        p = next((a for a in c.P.adt_by_name if a.startswith('svd_rs::') and a.endswith('::' + it)), None)
        for f in [g for g in c.P.fns.values() if g['kind'] == 'fn' and (g['ti'] or '').startswith('std::iter::Iterator::') and g['ti'] != 'std::iter::Iterator::next'
                  and g['name'].lstrip('<').split(' as ')[0].split('<')[0] == p]:
            def one(f=f, it=it, kind=kind, p=p): own_method(ck, f, f['ti'].split('::')[-1], p, kind, L)
            ck.guarded('own method', one, anchor=it, private=True)

def own_method(ck, f, m, p, kind, L):
    c = ck.c; what = '`%s` agrees with `next`' % m
    if kind is None and m != 'size_hint' or m not in ('count', 'last', 'nth', 'size_hint') or len(c.fields(p)) != 1 and kind: return ck.unk(f, what, 'not compared')
    r = run_self(c, f, adt(p, 0, L)) if kind else c.run(f)
    if m == 'size_hint':
        # the number of elements lies between 0 and the length of the list, and nothing more is known of it
        lo, up = fld(r.ret, 0, 0), fld(r.ret, 0, 1)
        if kind is None:
            if lo is lint(0) and up is NONE(): return ck.ok(f, what)
            return ck.unk(f, what, 'bounds %s' % show(r.ret)[:200])
        n = c.E.length(L); k = c.E.length(payloads(c, L, kind))
        ok = lambda g: ck.ok(f, what) if g else (ck.unk if r.notes or tainted(r.ret) is not None else ck.viol)(f, what, 'bounds %s' % show(r.ret)[:200])
        return ok((lo is lint(0) or lo is k) and (up is NONE() or up is SOME(n) or up is SOME(k)))
    R = payloads(c, L, kind)
    want = c.E.length(R) if m == 'count' else opt_last(c, R) if m == 'last' else c.E.head(leafs.skip(c.E, R, c.args(f)[1]))
    ret = r.ret
    if m == 'count':      # what is counted makes no difference
        ret, want = (lift1(lambda l: c.E.length(blank(l.a[1])) if l.op == 'call' and l.a[0] == 'len' else l, t) for t in (ret, want))
    ck.same(f, what, ret, want, notes=r.notes)
def blank(l):
    def go(g):
        if g.op == 'item': return item(UNIT)
        if g.op == 'if': return seg_if(g.a[0], [go(y) for y in g.a[1:]])
        if g.op == 'for': return seg_for(g.a[0], g.a[1], [go(y) for y in g.a[2:]])
        return g
    return mk_list([go(g) for g in segs_of(l)])

def run_self(c, f, v):
    """run a &mut self method on a given receiver value"""
    e = ev.Ev(c.P, lambda g: False)
    try: r = e.run_on(f, {1: v})
    except (RecursionError, ev.Unsupported, AssertionError, KeyError, IndexError, AttributeError, TypeError) as x:
        raise Unknown('%s: %s' % (type(x).__name__, str(x)[:100]))
    c.analysed[f['name']] = nblocks(f)
    return r

def check_dfs(ck, f, p):
    c = ck.c
    r = c.run(f)
    lo = [x for x in subterms(r.ret) if x.op == 'loopsig']
    exits = [x for x in subterms(r.ret) if x.op == 'call' and x.a[0] == 'loopexit']
    outs = [x for x in subterms(r.ret) if x.op == 'call' and x.a[0] == 'loopout']
    sigs = {x.a[0] for x in lo}
    if not sigs and not any(x.op in ('call', 'fold', 'lv') for x in subterms(r.ret)) and all(l is NONE() or l is BOT for l in leafset(r.ret)):
        return ck.viol(f, 'delivers the register reached, or nothing at the end', 'never delivers anything')
    if len(sigs) != 1 or len(next(iter(sigs))) != 1: raise SpecGap('traversal is not one loop over one stack')
    (init, lv, nxt), = next(iter(sigs))
    stack = lambda s: fld(s, 0, 0)
    x = c.args(f)[0]
    ck.same(f, 'the loop starts from the pending elements of the iterator', init, x, notes=())
    top = opt_last(c, stack(lv))
    rest = mk('call', 'init', stack(lv))
    cur = c.some(top)
    isreg = c.is_variant(cur, RC, 'Register')
    cl = fld(cur, c.vi(RC, 'Cluster'), 0)
    kids = G(c, info(c, cl), 'ClusterInfo', 'children')
    want = adt(p, 0, leafs.lcat(rest, leafs.rev(c.E, kids)))
    under = b_and(c.is_some(top), b_not(isreg))
    mut = p.endswith('Mut')
    got = subst_mrefs(c, nxt, r, cur) if mut else nxt
    ck.same(f, 'a cluster is replaced by its children, first child on top', got, want, under=under, notes=r.notes)
    # leaving the loop: with nothing when the stack is empty, with the register when a register is on top
    for x in lo:
        g = x.a[1]
        if g is None: continue
    gs = {x.a[1] for x in lo}
    none_g = b_not(c.is_some(top)); reg_g = b_and(c.is_some(top), isreg)
    for g in gs:
        w1 = equiv(g, none_g); w2 = equiv(g, reg_g)
        if w1 is None or w2 is None: ck.ok(f, 'leaves the loop exactly on a register or at the end (%s)' % ('end' if w1 is None else 'register'))
        elif not mut and tainted(g, subterms(none_g) | subterms(reg_g) | {lv}) is None: ck.viol(f, 'leaves the loop exactly on a register or at the end', 'leaves when ' + show(g)[:300])
        else: ck.unk(f, 'leaves the loop exactly on a register or at the end', show(g)[:200])
    # the value delivered by the last step
    def last_step(t):
        if t.op == 'call' and t.a[0] == 'loopout': return last_step(t.a[2])
        if t.op == 'case' and t.a[0].op == 'call' and t.a[0].a[0] == 'loopexit':
            g = t.a[0].a[1].a[1]
            return ite(g, last_step(dict(t.a[1]).get(1, t.a[2])), last_step(dict(t.a[1]).get(0, t.a[2])))
        if not children(t): return t
        return rebuild(t, last_step)
    want = ite(none_g, NONE(), SOME(fld(cur, c.vi(RC, 'Register'), 0)))
    ck.same(f, 'delivers the register reached, or nothing at the end', last_step(r.ret), want, under=b_or(none_g, reg_g), notes=r.notes)
    ck.same(f, 'goes on with the elements below the register delivered', fld(last_step(r.out(1)), 0, 0), rest, under=reg_g, notes=r.notes)

def opt_last(c, l): return leafs.opt_last(l)
def subst_mrefs(c, t, r, cur):
    """elements reached through a mutable reference stand for themselves"""
    def go(x):
        if x.op == 'for' and len(x.a) == 3 and x.a[2].op == 'item' and x.a[2].a[0].op == 'mref':
            last = x.a[2].a[0].a[1][-1]
            if last[0] == 'e' and last[1] is elem(x.a[0], x.a[1]): return seg_for(x.a[0], x.a[1], [item(elem(x.a[0], x.a[1]))])
        if not children(x): return x
        return rebuild(x, go)
    return go(t)

LOOKUPS = [('Device', 'peripherals', 'peripheral', None), ('PeripheralInfo', 'interrupt', 'interrupt', 'plain'), ('EnumeratedValues', 'values', 'value', 'plain'),
           ('RegisterInfo', 'fields', 'field', 'opt')]
def check_get(ck):
    c = ck.c
    ck.rule('lookup rule: the first element, in list order, of the kind asked for whose name equals the argument; none if there is none')
    def byname(L, key, nm, ma=True): return c.first(L, lambda e: eq(key, c.F(info(c, e) if ma else e, nm, 'name')))
    for pre in ('get_', 'get_mut_'):
        def dev(pre=pre):
            f = c.fn(sty(c, 'Device') + '::' + pre + 'peripheral'); r = c.run(f); x, k = c.args(f)
            ck.same(f, 'first peripheral of that name', r.ret, byname(G(c, x, 'Device', 'peripherals'), k, sty(c, 'PeripheralInfo')), notes=r.notes)
        ck.guarded('lookup', dev, anchor=pre + 'peripheral')
        def itr(pre=pre):
            f = c.fn(sty(c, 'PeripheralInfo') + '::' + pre + 'interrupt'); r = c.run(f); x, k = c.args(f)
            ck.same(f, 'first interrupt of that name', r.ret, byname(G(c, x, 'PeripheralInfo', 'interrupt'), k, sty(c, 'Interrupt'), False), notes=r.notes)
        ck.guarded('lookup', itr, anchor=pre + 'interrupt')
        def val(pre=pre):
            f = c.fn(sty(c, 'EnumeratedValues') + '::' + pre + 'value'); r = c.run(f); x, k = c.args(f)
            ck.same(f, 'first enumerated value of that name', r.ret, byname(G(c, x, 'EnumeratedValues', 'values'), k, sty(c, 'EnumeratedValue'), False), notes=r.notes)
        ck.guarded('lookup', val, anchor=pre + 'value')
        def fie(pre=pre):
            f = c.fn(sty(c, 'RegisterInfo') + '::' + pre + 'field'); r = c.run(f); x, k = c.args(f)
            o = G(c, x, 'RegisterInfo', 'fields')
            ck.same(f, 'first field of that name', r.ret, byname(ite(c.is_some(o), c.some(o), EMPTYL), k, sty(c, 'FieldInfo')), notes=r.notes)
        ck.guarded('lookup', fie, anchor=pre + 'field')
        for n in ('PeripheralInfo', 'ClusterInfo'):
            for kind, st in (('Register', 'RegisterInfo'), ('Cluster', 'ClusterInfo')):
                def rc(n=n, kind=kind, st=st, pre=pre):
                    f = c.fn(sty(c, n) + '::' + pre + kind.lower()); r = c.run(f); x, k = c.args(f)
                    ck.same(f, 'first %s of that name' % kind.lower(), r.ret, byname(payloads(c, reglist(c, x, n), kind), k, sty(c, st)), notes=r.notes)
                ck.guarded('lookup', rc, anchor=n + '::' + pre + kind.lower())
