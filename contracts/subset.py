"""C15 values set on the sub-regions of a raster are output in their cells"""
from .own import *


def sub_wf(t, u, nc=None):
    """positions of a subset: ascending stored indices, ascending local indices inside its rectangle"""
    f = lambda n: u.box[n]
    nr = f('g_erow') - f('g_srow') + 1; ncs = f('g_ecol') - f('g_scol') + 1
    t.require(z3.And(f('g_srow') >= 0, f('g_scol') >= 0, nr >= 1, ncs >= 1, nr * ncs <= MAXN, u.n <= nr * ncs))
    u.full = nr * ncs
    u.LI = t.content(u.lidx); u.GI = t.content(u.glob)
    u.INV = z3.Function('inv_%s' % u.name, z3.IntSort(), z3.IntSort())
    t.require(forall(lambda i: z3.Implies(rng(0, i, u.n), z3.And(sel(u.LI, i) >= 0, sel(u.LI, i) < u.full, u.INV(sel(u.LI, i)) == i)), 1, lambda i: sel(u.LI, i)))
    t.require(forall(lambda i: z3.Implies(rng(0, i, u.n), sel(u.GI, i) >= 0), 1, lambda i: sel(u.GI, i)))
    u.cov = lambda j: z3.And(rng(0, u.INV(j), u.n), sel(u.LI, u.INV(j)) == j)


def kept_members(t, s, u, but):
    for f in u.L:
        if f in but: continue
        a = t.st0.mem[u.oid].cells.get(u.L[f]); b = s.mem[u.oid].cells.get(u.L[f])
        if a is not None and b is not None: t.ensure(s, eqv(a[1], b[1]), 'member %s is unchanged' % f)


KS = ('no', '1D', '2D')
for T in ('float', 'int', 'double'):
    for k in KS:
        for given in (1, 0):
            @task('C15', 'SetData<%s> over %s data%s' % (T, k, '' if given else ', null'), TUR)
            def _(t, T=T, k=k, given=given):
                array_specs(t.E, t.mod); u = Sub(t, 'sub', k); n = t.int('n')
                d = t.array('given', ty_of(T), u.n); A = t.content(d)
                def inv(c):
                    if u.data is None: return
                    for nm, g in c.int_locs():
                        yield 'copied< %s' % nm, lambda s, g=g: forall(lambda i: z3.Implies(rng(0, i, g(s)), sel(s.mem[u.data].arrs[0][1], i) == R(sel(A, i))))
                t.inv(inv)
                t.call('bool SubsetPositions::SetData<%s>(int, %s*)' % (T, T), Ptr(u.oid), n, Ptr(d) if given else NULL)
                for s in t.rets:
                    ok = z3.And(n == u.n, given == 1)
                    t.ensure(s, s.ret == ok, 'accepted exactly with one value per cell')
                    if not t.E.feasible(s, s.ret):
                        kept_members(t, s, u, ()); t.ensure(s, len(live(s)) == 0, 'nothing is kept')
                        for o in u.data_objs(): t.ensure(s, z3.And(s.mem[o].alive, eqv(s.mem[o].arrs[0][1], t.st0.mem[o].arrs[0][1])) if o != u.drow else z3.BoolVal(s.mem[o].alive), 'the former data is kept')
                        continue
                    p = u.f(s, 'data_'); o = ival(simp(p.obj))
                    t.ensure(s, o is not None and o != 0 and s.mem[o].alive, 'the subset has values')
                    if o:
                        t.ensure(s, z3.And(p.idx == 0, t.E.obj_len(s, o) == u.n), 'one value per cell')
                        t.ensure(s, forall(lambda i: z3.Implies(rng(0, i, u.n), sel(s.mem[o].arrs[0][1], i) == R(sel(A, i)))), 'the values are the given ones')
                        t.ensure(s, all(q in (o,) for q in live(s)), 'nothing else is allocated')
                    t.ensure(s, z3.And(u.f(s, 'n_lyrs') == 1, u.f(s, 'usable') == 1), 'one layer, usable')
                    t.ensure(s, u.f(s, 'data2d_').obj == 0, 'no data of several layers remains')
                    if k == '2D': released(t, s, u.data_objs(), 'former data')
                    kept_members(t, s, u, ('n_lyrs', 'usable', 'data_', 'data2d_'))
                t.unchanged(u.pos_objs() + [d])

            @task('C15', 'Set2DData<%s> over %s data%s' % (T, k, '' if given else ', null'), TUR)
            def _(t, T=T, k=k, given=given):
                array_specs(t.E, t.mod); u = Sub(t, 'sub', k); n = t.int('n'); ly = t.int('lyr')
                t.require(z3.And(ly >= 1, u.n * ly <= MAXN))
                g_, d = t.array2d('given', ty_of(T), u.n, ly); A = t.content(d)
                def inv(c):
                    if u.data is None: return
                    cur = lambda s, i, l: sel(sel(s.mem[u.data].arrs[0][1], i), l)
                    for nm, g in c.int_locs():
                        yield 'rows< %s' % nm, lambda s, g=g: forall(lambda i, l: z3.Implies(z3.And(rng(0, i, g(s)), rng(0, l, ly)), cur(s, i, l) == R(sel(sel(A, i), l))), 2)
                        for nm2, g2 in c.frame_ints():
                            if nm2 == nm: continue
                            yield 'rows< %s,%s' % (nm2, nm), lambda s, g=g, g2=g2: forall(lambda i, l: z3.Implies(z3.And(0 <= i, 0 <= l, l < ly, z3.Or(i < g2(s), z3.And(i == g2(s), l < g(s)))), cur(s, i, l) == R(sel(sel(A, i), l))), 2)
                t.inv(inv)
                t.call('bool SubsetPositions::Set2DData<%s>(int, int, %s**)' % (T, T), Ptr(u.oid), n, ly, Ptr(g_) if given else NULL)
                for s in t.rets:
                    ok = z3.And(n == u.n, given == 1)
                    t.ensure(s, s.ret == ok, 'accepted exactly with one value per cell')
                    if not t.E.feasible(s, s.ret):
                        kept_members(t, s, u, ()); t.ensure(s, len(live(s)) == 0, 'nothing is kept')
                        continue
                    p = u.f(s, 'data2d_'); o = ival(simp(p.obj))
                    t.ensure(s, o is not None and o != 0 and s.mem[o].alive, 'the subset has values')
                    if o:
                        c = ival(simp(sel(s.mem[o].arrs[0][1][0], 0)))
                        t.ensure(s, z3.And(p.idx == 0, t.E.obj_len(s, o) == u.n, t.E.obj_len(s, c) == ly), 'one value per cell and layer')
                        t.ensure(s, forall(lambda i, l: z3.Implies(z3.And(rng(0, i, u.n), rng(0, l, ly)), sel(sel(s.mem[c].arrs[0][1], i), l) == R(sel(sel(A, i), l))), 2), 'the values are the given ones')
                        t.ensure(s, all(q in (o, c) for q in live(s)), 'nothing else is allocated')
                    t.ensure(s, z3.And(u.f(s, 'n_lyrs') == ly, u.f(s, 'usable') == 1), 'the layers, usable')
                    t.ensure(s, u.f(s, 'data_').obj == 0, 'no data of one layer remains')
                    if k == '1D': released(t, s, u.data_objs(), 'former data')
                    if k == '2D' and o and o != u.drow: released(t, s, u.data_objs(), 'former data')
                    kept_members(t, s, u, ('n_lyrs', 'usable', 'data_', 'data2d_'))
                t.unchanged(u.pos_objs() + [d])


def flat_axioms(t, lay, rows):
    """Q(x), M(x): quotient and remainder of a flat index by the layer count; rows(i) yields the terms whose cells the code addresses.
    Both axioms are the definition of div/mod; uniqueness is proved in the task 'lemma: flat indices'."""
    Q = z3.Function(t.E.nm('quo'), z3.IntSort(), z3.IntSort()); M = z3.Function(t.E.nm('rem'), z3.IntSort(), z3.IntSort())
    x, i = z3.Ints('fx fi')
    t.E.side_axioms.append(z3.ForAll([x], z3.Implies(lay >= 1, z3.And(x == Q(x) * lay + M(x), M(x) >= 0, M(x) < lay, z3.Implies(x >= 0, z3.And(Q(x) >= 0, Q(x) <= x)))), patterns=[Q(x)]))
    for f in rows:
        j, trig = f(i); d = x - j * lay
        t.E.side_axioms.append(z3.ForAll([x, i], z3.Implies(lay >= 1, z3.And((Q(x) == j) == z3.And(d >= 0, d < lay), z3.Implies(Q(x) == j, M(x) == d))), patterns=[z3.MultiPattern(Q(x), trig)]))
    return Q, M


def counters(c):
    """locals that an enclosing loop may count with"""
    for nm, g in c.frame_ints():
        try: v = simp(g(c.entry))
        except KeyError: continue
        if z3.is_int_value(v) and v.as_long() >= 0 or z3.is_const(v) and str(v).startswith('%'): yield nm, g


def conv_ok(v, T):
    """the double converts to T without loss of definedness"""
    if T != 'int': return z3.And(v <= FMAX, v >= -FMAX)
    r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)); return z3.And(r >= -MAXN - 1, r <= MAXN)


def trunc(v): return v if v.sort() == z3.IntSort() else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def define(E, name, f):
    """a named abbreviation: total function of (cell, layer) given by its definition"""
    i, l = z3.Ints('di dl'); b = f(i, l)
    F = z3.Function(E.nm(name), z3.IntSort(), z3.IntSort(), b.sort())
    E.side_axioms.append(z3.ForAll([i, l], F(i, l) == b, patterns=[F(i, l)]))
    return F


class Recls:
    """reclassification table: class -> one value per layer"""
    def __init__(self, t, some):
        E = t.E; self.t, self.some = t, some
        if some: self.node = sym_map(E, t.st, 'int', 'vector<double>', 'recls')
        else: self.node = new_map(E, t.st, MapT('int', 'vector<double>'), 'recls')
        self.o = t.struct('recls.obj'); t.st.w(self.o).cells[0] = ('stl', MapV(self.node))
        self.sub = E.info[self.node].tag
        self.H = t.st.mem[self.node].arrs['has'][1]; self.C = t.st.mem[self.sub].arrs[0][1]; self.LEN = t.st.mem[self.sub].arrs['len'][1]
        self.e = stl2.enum(E, t.st, self.node)
        if some:
            t.require(self.e.n >= 1)
            t.require(forall(lambda k: z3.And(sel(self.LEN, k) >= 0, sel(self.LEN, k) <= MAXN), 1, lambda k: sel(self.LEN, k)))
            self.L = sel(self.LEN, self.e.key(I(0)))
            self.same = forall(lambda k: z3.Implies(sel(self.H, k), sel(self.LEN, k) == self.L), 1, lambda k: sel(self.LEN, k))
            self.same2 = forall(lambda k: z3.Implies(sel(self.H, k), sel(self.LEN, k) == self.L), 1, lambda k: sel(self.H, k))

    def value(self, key, l, default): return z3.If(z3.And(sel(self.H, key), sel(self.LEN, key) > l), sel(sel(self.C, key), l), default)

    def inv(self, c):
        if not self.some: return
        it = [(nm, f) for nm, f in c.int_locs() if '.row' in nm]
        for nm, f in it:
            e = self.e
            for nm2, g in c.int_locs():
                if '.row' in nm2 or '#' in nm2 and '.n#' in nm2: continue
                yield 'layers %s %s' % (nm, nm2), lambda s, f=f, g=g: g(s) == z3.If(f(s) == 0, -1, self.L)
            yield 'same layers %s' % nm, lambda s, f=f: forall(lambda k: z3.Implies(z3.And(sel(self.H, k), e.pos(k) < f(s)), sel(self.LEN, k) == self.L), 1, lambda k: e.pos(k))
            yield 'same layers2 %s' % nm, lambda s, f=f: forall(lambda k: z3.Implies(z3.And(sel(self.H, k), e.pos(k) < f(s)), sel(self.LEN, k) == self.L), 1, lambda k: sel(self.LEN, k))
            yield 'same layers3 %s' % nm, lambda s, f=f: forall(lambda k: z3.Implies(z3.And(sel(self.H, k), e.pos(k) < f(s)), sel(self.LEN, k) == self.L), 1, lambda k: sel(self.H, k))


def prep_task(T, two, origin, kind, incl, rec):
    @task('C15', 'PrepareSubsetData %s,%s,%s,subset data %s,%s%s' % (T, '2D' if two else '1D', 'original' if origin else 'subset values', kind, 'full rectangle' if incl else 'cells only', ('', ',reclassified', ',reclassified without layers')[rec]), TUR, tier='quick' if T == 'float' or kind == '2D' and not incl else 'thorough')
    def _(t):
        E = t.E
        array_specs(E, t.mod)
        r = Raster(t, T, two=two, pos='no'); u = Sub(t, 'sub', kind); sub_wf(t, u)
        t.require(forall(lambda i: z3.Implies(rng(0, i, u.n), sel(u.GI, i) < r.n), 1, lambda i: sel(u.GI, i)))
        rc = Recls(t, rec); t.inv(rc.inv)
        lay = r.lyrs if origin else u.lyrs
        if rec == 1 and origin: t.require(rc.L > 0); lay = rc.L
        if rec == 2: t.require(rc.L == 0)
        if kind == '1D': t.require(u.lyrs == 1)
        t.require(z3.And(lay >= -1, lay != 0))
        N = u.full if incl else u.n
        t.require(z3.And(N * lay <= MAXN, N <= MAXN))
        dv = t.real('default'); sid = t.int('id')
        vals = t.cell(PTR, NULL, 'values'); dl = t.cell(I32, None, 'datalen'); ly = t.cell(I32, None, 'datalyrs')
        pre = lambda f: t.require(forall(lambda vi, l: z3.Implies(z3.And(rng(0, vi, u.n), rng(0, l, lay)), f(vi, l)), 2))
        V = None
        if rec:
            d2 = z3.If(EQ(dv, NODATA), r.defv, dv)
            key = (lambda vi, l: trunc(r.val0(sel(u.GI, vi), l))) if origin else (lambda vi, l: sid)
            if origin: key = define(E, 'key', key)
            V = define(E, 'val', lambda vi, l: conv(E, t.st, rc.value(key(vi, l), l, d2), 'double', T))
            t.require(conv_ok(d2, T)); t.require(forall(lambda k, l: z3.Implies(z3.And(sel(rc.H, k), l >= 0, l < sel(rc.LEN, k)), conv_ok(sel(sel(rc.C, k), l), T)), 2, lambda k, l: sel(sel(rc.C, k), l)))
            if origin and T != 'int': t.require(forall(lambda i, l=I(0): conv_ok(r.val0(i, l), 'int'), 2 if two else 1, lambda i, l=I(0): r.val0(i, l)))
        elif origin: V = lambda vi, l: r.val0(sel(u.GI, vi), l)
        elif kind != 'no':
            D = t.content(u.data)
            src = (lambda vi, l: sel(sel(D, vi), l)) if kind == '2D' else (lambda vi, l: sel(D, vi))
            V = lambda vi, l: conv(E, t.st, src(vi, l), 'double', T)
            pre(lambda vi, l: conv_ok(src(vi, l), T))
        cov = u.cov if incl else (lambda j: rng(0, j, u.n))
        inv_ = u.INV if incl else (lambda j: j)
        def want(j, l, g, g2=None):
            vi = inv_(j)
            done = vi < g if g2 is None else z3.Or(vi < g, z3.And(vi == g, l < g2))
            return z3.If(z3.And(cov(j), done), V(vi, l), r.nd)
        Q, M = flat_axioms(t, lay, [lambda i: (sel(u.LI, i), sel(u.LI, i)) if incl else (i, sel(u.GI, i))])
        def inv(c):
            for o, off, ty in c.arrays():
                if E.info[o].kind != 'new[]' or o in (r.data, r.rowp) or E.info[o].name.startswith(('sub', 'rs')): continue
                cur = lambda s, x, o=o: sel(s.mem[o].arrs[0][1], x)
                al = lambda s, f, cur=cur: forall(lambda x: z3.Implies(rng(0, x, N * lay), cur(s, x) == f(Q(x), M(x))), 1, lambda x: cur(s, x))
                for nm, g in c.int_locs():
                    yield 'cells< %s' % nm, lambda s, g=g, al=al: al(s, lambda j, l: want(j, l, g(s)))
                    for nm2, g2 in counters(c):
                        if nm2 != nm: yield 'cells< %s,%s' % (nm2, nm), lambda s, g=g, g2=g2, al=al: al(s, lambda j, l: want(j, l, g2(s), g(s)))
        if V is not None: t.inv(inv)
        t.call(r.only('PrepareSubsetData'), r.ptr(), sid, Ptr(u.oid), Ptr(vals), Ptr(dl), Ptr(ly), I(origin) == 1, I(incl) == 1, Ptr(rc.o), dv)
        for s in t.rets:
            if not E.feasible(s, s.ret):
                bad = [lay < 0]
                if rec: bad.append(z3.Not(rc.same2))
                if rec and origin and two: bad.append(lay > r.lyrs)
                t.ensure(s, z3.Or(*bad) if V is not None else z3.BoolVal(True), 'refused only when the layers are unknown or inconsistent')
                t.ensure(s, len(live(s)) == 0, 'nothing is left behind'); continue
            t.ensure(s, s.ret, 'a definite answer')
            t.ensure(s, V is not None, 'there is something to output')
            if V is None: continue
            if rec: t.ensure(s, rc.same, 'all classes have the same layers')
            p = t.get(s, vals); o = ival(simp(p.obj))
            t.ensure(s, o is not None and o in live(s), 'a fresh array')
            if not o: continue
            t.ensure(s, z3.And(t.get(s, ly) == lay, t.get(s, dl) == N * lay, E.obj_len(s, o) == N * lay, p.idx == 0), 'its size and layers')
            X = s.mem[o].arrs[0][1]
            t.ensure(s, forall(lambda x: z3.Implies(rng(0, x, N * lay), sel(X, x) == want(Q(x), M(x), u.n)), 1, lambda x: sel(X, x)), 'cells of the subset hold their values, others no-data')
            t.ensure(s, live(s) == [o], 'nothing else is left')
        t.unchanged(r.objs() + u.objs() + [rc.o, rc.node, rc.sub])


NODATA = z3.RealVal(-9999)
for T in ('float', 'int'):
    for two in (False, True):
        for incl in (1, 0):
            for kind in KS: prep_task(T, two, 0, kind, incl, 0)
            prep_task(T, two, 1, 'no', incl, 0)
            prep_task(T, two, 1, 'no', incl, 1)
            prep_task(T, two, 1, 'no', incl, 2)
            prep_task(T, two, 0, 'no', incl, 1)


def comb_task(T, two, origin, kinds, incl, rec, us):
    """the two groups' cells combined; us: which groups are usable"""
    nm = '%s,%s,%s,subset data %s,%s%s,usable %s' % (T, '2D' if two else '1D', 'original' if origin else 'subset values', '+'.join(kinds), 'full rectangle' if incl else 'cells only',
                                                      ('', ',reclassified', ',reclassified without layers')[rec], us)
    @task('C15', 'PrepareCombSubsetData ' + nm, TUR, tier='quick' if T == 'float' and incl or T == 'int' and two and not origin and incl else 'thorough')
    def _(t):
        E = t.E; array_specs(E, t.mod)
        r = Raster(t, T, two=two, pos='yes')
        subs = [Sub(t, 'sub%d' % i, k) for i, k in enumerate(kinds)]; keys = with_subsets(t, r, subs)
        rc = Recls(t, rec); t.inv(rc.inv)
        for u, v in zip(subs, us): t.st.w(u.oid).cells[u.L['usable']] = (INT[8], I(int(v)))
        active = [i for i, v in enumerate(us) if v == '1']
        dv = t.real('default'); d2 = z3.Real('default.used'); same_nd = z3.Bool('default.is.nodata')
        if rec: t.require(EQ(dv, NODATA) == (not incl))   # one of the two sources of the default value per variant
        t.st.assume(d2 == z3.If(EQ(dv, NODATA), r.defv, dv))
        t.st.assume(same_nd == EQ(z3.ToReal(r.nd) if r.nd.sort() == z3.IntSort() else r.nd, d2))
        consistent = z3.And(*[subs[i].lyrs == subs[active[0]].lyrs for i in active]) if active else z3.BoolVal(True)
        lay = None
        if origin: lay = r.lyrs
        elif active: lay = subs[active[0]].lyrs
        elif rec == 1: lay = rc.L
        if rec == 1 and (origin or not active): t.require(rc.L > 0)
        if rec == 1 and origin: lay = rc.L
        if rec == 2: t.require(rc.L == 0)
        for u in subs:
            if u.kind == '1D': t.require(u.lyrs == 1)
            u.GI = t.content(u.glob)
        if lay is not None: t.require(z3.And(lay >= 1, lay <= MAXN))
        full = r.rows * r.cols
        N = full if incl else r.n
        if lay is not None: t.require(N * lay <= MAXN)
        dest = (lambda g: sel(r.P, g)) if incl else (lambda g: g)
        OWN = z3.Function(E.nm('owner'), z3.IntSort(), z3.IntSort()); INV = z3.Function(E.nm('member'), z3.IntSort(), z3.IntSort())
        for k, u in enumerate(subs):  # disjoint groups of distinct stored cells
            t.require(forall(lambda i: z3.Implies(rng(0, i, u.n), z3.And(sel(u.GI, i) >= 0, sel(u.GI, i) < r.n, OWN(dest(sel(u.GI, i))) == k, INV(dest(sel(u.GI, i))) == i)), 1, lambda i: sel(u.GI, i)))
        member = lambda j, k: z3.And(OWN(j) == k, rng(0, INV(j), subs[k].n), dest(sel(subs[k].GI, INV(j))) == j)
        vals = t.cell(PTR, NULL, 'values'); dl = t.cell(I32, None, 'datalen'); ly = t.cell(I32, None, 'datalyrs')
        V = []
        t.require(conv_ok(d2, T))
        if rec: t.require(forall(lambda k, l: z3.Implies(z3.And(sel(rc.H, k), l >= 0, l < sel(rc.LEN, k)), conv_ok(sel(sel(rc.C, k), l), T)), 2, lambda k, l: sel(sel(rc.C, k), l)))
        if rec and origin and T != 'int': t.require(forall(lambda i, l=I(0): conv_ok(r.val0(i, l), 'int'), 2 if two else 1, lambda i, l=I(0): r.val0(i, l)))
        for k, u in enumerate(subs):
            usable = us[k] == '1'
            if rec:
                key = (lambda vi, l, u=u: trunc(r.val0(sel(u.GI, vi), l))) if origin else (lambda vi, l, k=k: keys[k])
                if origin: key = define(E, 'key%d' % k, key)
                v = define(E, 'val%d' % k, lambda vi, l, key=key: conv(E, t.st, rc.value(key(vi, l), l, d2), 'double', T))
            elif not usable: v = lambda vi, l: conv(E, t.st, d2, 'double', T)
            elif origin: v = lambda vi, l, u=u: r.val0(sel(u.GI, vi), l)
            elif u.kind == 'no': v = None
            else:
                D = t.content(u.data)
                src = (lambda vi, l, D=D: sel(sel(D, vi), l)) if u.kind == '2D' else (lambda vi, l, D=D: sel(D, vi))
                v = lambda vi, l, src=src: conv(E, t.st, src(vi, l), 'double', T)
                t.require(forall(lambda vi, l=I(0): conv_ok(src(vi, l), T), 2 if u.kind == '2D' else 1, lambda vi, l=I(0): src(vi, l)))
            V.append(v)
        possible = lay is not None and all(V[i] is not None for i in active)
        if possible:
            def final(j, l, k):
                v = V[k](INV(j), l)
                return v if us[k] == '1' else z3.If(same_nd, r.nd, v)
            def want(j, l, k, g, g2=None):
                vi = INV(j); e = r.nd
                done = vi < g if g2 is None else z3.Or(vi < g, z3.And(vi == g, l < g2))
                if k < len(subs): e = z3.If(z3.And(member(j, k), done), final(j, l, k), e)
                for a in range(k): e = z3.If(member(j, a), final(j, l, a), e)
                return e
            rows = []
            Q, M = flat_axioms(t, lay, [lambda i, u=u: (dest(sel(u.GI, i)), sel(u.GI, i)) for u in subs])
            def inv(c):
                for o, off, ty in c.arrays():
                    if E.info[o].kind != 'new[]' or o in r.objs() or E.info[o].name.startswith(('sub', 'rs')): continue
                    cur = lambda s, x, o=o: sel(s.mem[o].arrs[0][1], x)
                    al = lambda s, f, cur=cur: forall(lambda x: z3.Implies(rng(0, x, N * lay), cur(s, x) == f(Q(x), M(x))), 1, lambda x: cur(s, x))
                    for k in range(len(subs)):
                        for nm, g in c.int_locs():
                            yield 'cells of %d< %s' % (k, nm), lambda s, g=g, al=al, k=k: al(s, lambda j, l: want(j, l, k, g(s)))
                            for nm2, g2 in counters(c):
                                if nm2 != nm: yield 'cells of %d< %s,%s' % (k, nm2, nm), lambda s, g=g, g2=g2, al=al, k=k: al(s, lambda j, l: want(j, l, k, g2(s), g(s)))
            t.inv(inv)
        t.call(r.only('PrepareCombSubsetData'), r.ptr(), Ptr(vals), Ptr(dl), Ptr(ly), I(origin) == 1, I(incl) == 1, Ptr(rc.o), dv)
        for s in t.rets:
            if not E.feasible(s, s.ret):
                bad = [z3.Not(consistent)]
                if rec: bad.append(z3.Not(rc.same2))
                if rec and origin and two: bad.append(lay > r.lyrs)
                t.ensure(s, z3.Or(*bad) if possible else z3.BoolVal(True), 'refused only when the layers are unknown or inconsistent')
                t.ensure(s, len(live(s)) == 0, 'nothing is left behind'); continue
            t.ensure(s, s.ret, 'a definite answer')
            t.ensure(s, possible, 'there is something to output')
            if not possible: continue
            if not origin: t.ensure(s, consistent, 'all groups have the same layers')
            if rec: t.ensure(s, rc.same, 'all classes have the same layers')
            p = t.get(s, vals); o = ival(simp(p.obj))
            t.ensure(s, o is not None and o in live(s), 'a fresh array')
            if not o: continue
            t.ensure(s, z3.And(t.get(s, ly) == lay, t.get(s, dl) == N * lay, E.obj_len(s, o) == N * lay, p.idx == 0), 'its size and layers')
            X = s.mem[o].arrs[0][1]
            t.ensure(s, forall(lambda x: z3.Implies(rng(0, x, N * lay), sel(X, x) == want(Q(x), M(x), len(subs), I(0))), 1, lambda x: sel(X, x)), 'cells of the groups hold their values, others no-data')
            t.ensure(s, live(s) == [o], 'nothing else is left')
        t.unchanged(r.objs() + [x for u in subs for x in u.objs()] + [rc.o, rc.node, rc.sub])


for T in ('float', 'int'):
    for incl in (1, 0):
        for us in ('11', '10', '01', '00'):
            if T == 'float' or us == '10': comb_task(T, False, 0, ('1D', '1D'), incl, 0, us)
        comb_task(T, False, 0, ('1D', 'no'), incl, 0, '11')
        for two in (False, True):
            if two: comb_task(T, True, 0, ('2D', '2D'), incl, 0, '11')
            comb_task(T, two, 1, ('no', 'no'), incl, 0, '11')
            if T == 'float': comb_task(T, two, 1, ('no', 'no'), incl, 1, '11')
        if T == 'float': comb_task(T, False, 0, ('no', 'no'), incl, 1, '10')
    comb_task(T, False, 1, ('no', 'no'), 1, 0, '01')


for T in ('float', 'int', 'double'):
    for kind, L in (('1D', 1), ('2D', 1), ('2D', 2), ('no', 1)):
        @task('C15', 'Output<%s> of %s data, %d layer(s)' % (T, kind, L), TUR)
        def _(t, T=T, kind=kind, L=L):
            E = t.E; array_specs(E, t.mod)
            u = Sub(t, 'sub', kind); sub_wf(t, u); t.require(u.lyrs == L)
            u.lyrs = I(L); t.st.w(u.oid).cells[u.L['n_lyrs']] = (I32, I(L))
            v = stl2.new_vec(E, t.st, T + '*', I(0), name='full'); vo = t.struct('full.obj'); t.st.w(vo).cells[0] = ('stl', stl2.VecV(v))
            nd = t.val(ty_of(T), 'nodata')
            if kind != 'no':
                D = t.content(u.data)
                src = (lambda vi, l: sel(sel(D, vi), l)) if kind == '2D' else (lambda vi, l: sel(D, vi))
                V = lambda vi, l: conv(E, t.st, src(vi, l), 'double', T)
                t.require(forall(lambda vi, l=I(0): conv_ok(src(vi, l), T), 2 if kind == '2D' else 1, lambda vi, l=I(0): src(vi, l)))
                want = lambda j, l, g: z3.If(z3.And(u.cov(j), u.INV(j) < g), V(u.INV(j), l), nd)
                def inv(c):
                    for o, off, ty in c.arrays():
                        if E.info[o].kind != 'new[]' or o in u.objs(): continue
                        for nm, g in c.int_locs():
                            for l in range(L):
                                yield 'layer %d cells< %s' % (l, nm), lambda s, g=g, o=o, l=l: forall(lambda x: z3.Implies(rng(0, x, u.full), sel(s.mem[o].arrs[0][1], x) == want(x, I(l), g(s))), 1, lambda x: sel(s.mem[o].arrs[0][1], x))
                t.inv(inv)
            t.call('void SubsetPositions::Output<%s>(%s, std::vector<%s*, std::allocator<%s*> >&)' % (T, T, T, T), Ptr(u.oid), nd, Ptr(vo))
            for s in t.rets:
                n = ival(simp(s.mem[v].n))
                t.ensure(s, n == (0 if kind == 'no' else L), 'one array per layer')
                if n != (0 if kind == 'no' else L): continue
                used = []
                for l in range(n):
                    p = vec_ptr(s, v, l); o = ival(simp(p.obj))
                    t.ensure(s, o is not None and o in live(s) and o not in used, 'layer %d is a fresh array' % l)
                    if not o or o not in live(s): continue
                    used.append(o); X = s.mem[o].arrs[0][1]
                    t.ensure(s, z3.And(p.idx == 0, E.obj_len(s, o) == u.full), 'layer %d covers the rectangle' % l)
                    t.ensure(s, forall(lambda x: z3.Implies(rng(0, x, u.full), sel(X, x) == want(x, I(l), u.n)), 1, lambda x: sel(X, x)), 'layer %d: cells hold their values, others no-data' % l)
                t.ensure(s, sorted(live(s)) == sorted(used), 'nothing else is allocated')
            t.unchanged(u.objs())


def vec_ptr(s, v, i):
    c = s.mem[v].arrs[0][1]
    return Ptr(*[simp(sel(x, I(i))) for x in c]) if isinstance(c, tuple) else None


@task('C15', 'lemma: flat indices', TUR)
def _(t):
    """x = q*lay + m with 0 <= m < lay determines q and m: what flat_axioms states"""
    x, q, m, j, lay = z3.Ints('x q m j lay'); s = t.st.clone(); t.fns.append('flat indices'); t.rets = [s]
    s.assume(z3.And(lay >= 1, x == q * lay + m, m >= 0, m < lay))
    k = q - j
    for nm, h, g in (('above', k >= 1, k * lay >= lay), ('below', k <= -1, k * lay <= -lay)): t.ensure(s, z3.Implies(h, g), 'multiples %s' % nm)
    s.assume(z3.And(z3.Implies(k >= 1, k * lay >= lay), z3.Implies(k <= -1, k * lay <= -lay)))
    d = x - j * lay
    t.ensure(s, z3.Implies(q == j, z3.And(d >= 0, d < lay, m == d)), 'the quotient and remainder are determined')
    t.ensure(s, z3.Implies(z3.And(d >= 0, d < lay), q == j), 'only one quotient fits')
    t.ensure(s, z3.Implies(x >= 0, q >= 0), 'quotients of indices are not negative')
    t.ensure(s, z3.Implies(z3.And(x >= 0, q >= 0), q <= x), 'quotients do not exceed the index')


@task('C15', 'GetHeader of a sub-region', TUR)
def _(t):
    from . import maps
    u = Sub(t, 'sub', 'no'); b = u.box; H_ = lambda k: lit(H[k])
    t.require(z3.And(b['g_srow'] >= 0, b['g_scol'] >= 0, b['g_erow'] >= b['g_srow'], b['g_ecol'] >= b['g_scol'], b['g_erow'] < MAXN, b['g_ecol'] < MAXN))
    xll, yll, dx, nd = [t.real(n) for n in ('gxll', 'gyll', 'cellsize', 'nodata')]; rows = t.int('gnrows'); t.require(z3.And(rows > b['g_erow']))
    m, node = maps.map_arg(t, 'string', 'double', 'header'); s0 = t.st.clone()
    t.call('SubsetPositions::GetHeader(double, double, int, double, double, STRDBL_MAP&)', Ptr(u.oid), xll, yll, rows, dx, nd, Ptr(m))
    for s in t.rets:
        h = lambda k: maps.mval(t, s, node, H_(k))
        want = {'XLL': b['g_scol'] * dx + xll, 'YLL': (rows - 1 - b['g_erow']) * dx + yll, 'NODATA': nd, 'CELLSIZE': dx,
                'NROWS': z3.ToReal(b['g_erow'] - b['g_srow'] + 1), 'NCOLS': z3.ToReal(b['g_ecol'] - b['g_scol'] + 1)}
        for k, v in want.items(): t.ensure(s, z3.And(maps.has(t, s, node, H_(k)), h(k) == v), 'header %s of the rectangle' % k)
        t.ensure(s, maps.key_all(lambda q: z3.Implies(z3.And(*[q != H_(k) for k in list(want) + ['LAYERS', 'CELLSNUM']]), maps.same_entry(t, s, node, s0, node, q))), 'every other entry is unchanged')
    t.unchanged(u.objs())
