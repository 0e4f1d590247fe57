"""C25 whole-raster edits"""
from .maps import *


def cellwise(t, r, new, writes=None):
    """loop invariants: cells visited so far hold new(i, l), the others their entry values"""
    A0 = r.A0

    def inv(c):
        if not any(o == r.data for o, off, ty in c.arrays()): return
        ints = c.int_locs(); fr = c.frame_ints()
        cur = lambda s: s.mem[r.data].arrs[0][1]
        for nm, g in ints:
            if r.two:
                yield 'layers< %s' % nm, lambda s, g=g: forall(lambda q, l: z3.Implies(z3.And(rng(0, l, r.lyrs), rng(0, q, r.n)), sel(sel(cur(s), q), l) == z3.If(l < g(s), new(q, l), sel(sel(A0, q), l))), 2)
            else:
                yield 'passes %s' % nm, lambda s, g=g: z3.And(g(s) >= 0, forall(lambda q: z3.Implies(rng(0, q, r.n), sel(cur(s), q) == z3.If(g(s) >= 1, new(q, I(0)), sel(A0, q)))))
            if r.two:
                yield 'cells< %s' % nm, lambda s, g=g: forall(lambda q, l: z3.Implies(rng(0, l, r.lyrs), sel(sel(cur(s), q), l) == z3.If(z3.And(0 <= q, q < g(s)), new(q, l), sel(sel(A0, q), l))), 2)
            else:
                yield 'cells< %s' % nm, lambda s, g=g: forall(lambda q: sel(cur(s), q) == z3.If(z3.And(0 <= q, q < g(s)), new(q, I(0)), sel(A0, q)))
            for nm2, g2 in fr + ints:
                if nm2 == nm: continue
                if r.two:
                    yield 'layers< %s,%s' % (nm2, nm), lambda s, g=g, g2=g2: forall(lambda q, l: z3.Implies(z3.And(rng(0, l, r.lyrs), rng(0, q, r.n)), sel(sel(cur(s), q), l) == z3.If(z3.Or(l < g2(s), z3.And(l == g2(s), q < g(s))), new(q, l), sel(sel(A0, q), l))), 2)
                else:
                    yield 'passes %s,%s' % (nm2, nm), lambda s, g=g, g2=g2: z3.And(g2(s) >= 0, forall(lambda q: z3.Implies(rng(0, q, r.n), sel(cur(s), q) == z3.If(z3.Or(g2(s) >= 1, q < g(s)), new(q, I(0)), sel(A0, q)))))
                if r.two:
                    yield 'cells< %s,%s' % (nm2, nm), lambda s, g=g, g2=g2: forall(lambda q, l: z3.Implies(rng(0, l, r.lyrs), sel(sel(cur(s), q), l) == z3.If(z3.And(0 <= q, z3.Or(q < g2(s), z3.And(q == g2(s), l < g(s)))), new(q, l), sel(sel(A0, q), l))), 2)
                else:
                    yield 'cells< %s,%s' % (nm2, nm), lambda s, g=g, g2=g2: forall(lambda q: sel(cur(s), q) == z3.If(z3.And(0 <= q, z3.Or(q < g2(s), z3.And(q == g2(s), 0 < g(s)))), new(q, I(0)), sel(A0, q)))
    t.inv(inv)


def all_cells(r, f):
    if r.two: return forall(lambda q, l: z3.Implies(z3.And(rng(0, q, r.n), rng(0, l, r.lyrs)), f(q, l)), 2)
    return forall(lambda q: z3.Implies(rng(0, q, r.n), f(q, I(0))))


def variants():
    for T in ('float', 'int'):
        for two in (False, True):
            for pos in ('no', 'yes'): yield T, two, pos, '%s,%s,%s' % (T, '2D' if two else '1D', 'positions' if pos == 'yes' else 'full grid')


for T, two, pos, tag in variants():
    @task('C25', 'ReplaceNoData %s' % tag, TUR)
    def _(t, T=T, two=two, pos=pos):
        r = Raster(t, T, two=two, pos=pos)
        v = t.val(ty_of(T), 'replacement')
        new = lambda q, l: z3.If(EQ(r.val0(q, l), r.nd), v, r.val0(q, l))
        cellwise(t, r, new)
        t.call(r.method('ReplaceNoData(%s)' % T), r.ptr(), v)
        for s in t.rets:
            t.ensure(s, all_cells(r, lambda q, l: r.val(s, q, l) == new(q, l)), 'exactly the no-data values are replaced')
            t.ensure(s, z3.And(r.f(s, 'no_data_value_') == v, r.f(s, 'default_value_') == R(v)), 'the replacement becomes the no-data and default value')
            h, hv = r.hdr(s, 'NODATA'); t.ensure(s, z3.And(h, hv == R(v)), 'the header records the new no-data value')
            t.ensure(s, key_all(lambda k: z3.Implies(k != lit(H['NODATA']), same_entry(t, s, r.hnode, t.st0, r.hnode, k))), 'other header entries are unchanged')
            for f in ('n_cells_', 'n_lyrs_', 'is_2draster', 'calc_pos_', 'raster_', 'raster_2d_', 'pos_idx_', 'pos_data_', 'mask_'):
                t.ensure(s, eqv(r.f(s, f), t.st0.mem[r.oid].cells[r.L[f]][1]), 'member %s is unchanged' % f)
        t.unchanged([o for o in r.objs() if o not in (r.oid, r.hnode, r.data)])

    @task('C25', 'Reclassify %s' % tag, TUR)
    def _(t, T=T, two=two, pos=pos):
        r = Raster(t, T, two=two, pos=pos)
        m, node = map_arg(t, 'int', T, 'classes')
        s0 = t.st.clone()
        tr = (lambda v: v) if T == 'int' else (lambda v: z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        if T == 'float':
            t.require(forall(lambda q, l=I(0): z3.And(tr(r.val0(q, l)) >= -MAXN - 1, tr(r.val0(q, l)) <= MAXN), 2 if two else 1, lambda q, l=I(0): r.val0(q, l)))
        cls = lambda k: z3.If(has(t, s0, node, k), mval(t, s0, node, k), r.nd)
        new = lambda q, l: cls(tr(r.val0(q, l)))
        cellwise(t, r, new)

        def inv(c):
            from llvc.stl2 import enum
            for o, off, ty in c.arrays():
                if off != 'has' or t.E.info[o].kind != 'map': continue
                e = enum(t.E, s0, node)
                hp, vp = has_pat(t, o), val_pat(t, o)
                h0p = lambda s, k: has(t, s0, node, k)
                yield 'all classes %d' % o, lambda s, o=o: fa(s, lambda k: z3.Implies(has(t, s0, node, k), has(t, s, o, k)), h0p)
                yield 'class or nodata %d' % o, lambda s, o=o, hp=hp: fa(s, lambda k: z3.Implies(has(t, s, o, k), mval(t, s, o, k) == cls(k)), hp)
                yield 'class or nodata v %d' % o, lambda s, o=o, vp=vp: fa(s, lambda k: z3.Implies(has(t, s, o, k), mval(t, s, o, k) == cls(k)), vp)
                for nm, f in c.int_locs():
                    if '.row' not in nm: continue
                    done = lambda s, k, f=f: z3.And(has(t, s0, node, k), e.pos(k) < f(s))
                    yield 'copied keys %d %s' % (o, nm), lambda s, o=o, done=done, hp=hp: fa(s, lambda k: has(t, s, o, k) == done(s, k), hp)
                    yield 'copied given %d %s' % (o, nm), lambda s, o=o, done=done: fa(s, lambda k: z3.Implies(done(s, k), has(t, s, o, k)), h0p)
                    yield 'copied values %d %s' % (o, nm), lambda s, o=o, done=done, vp=vp: fa(s, lambda k: z3.Implies(done(s, k), mval(t, s, o, k) == mval(t, s0, node, k)), vp)
        t.inv(inv)
        t.call(r.only('Reclassify'), r.ptr(), Ptr(m))
        for s in t.rets:
            t.ensure(s, all_cells(r, lambda q, l: r.val(s, q, l) == new(q, l)), 'every cell holds the class of its integer part, or no-data')
        t.unchanged([node] + [o for o in r.objs() if o != r.data])
