from .rasterlib import *

VAR = [(T, two, pos) for T in ('float', 'int') for two in (False, True) for pos in ('no', 'yes')]


def vn(T, two, pos): return '%s,%s,%s' % (T, '2D' if two else '1D', 'positions' if pos == 'yes' else 'full grid')


# ---------------------------------------------------------------- C09 position lookup
def getpos(T, two, pos):
    @task('C09', 'GetPosition(row,col) %s' % vn(T, two, pos), TUR)
    def _(t):
        r = Raster(t, T, two=two, pos=pos)
        if pos == 'yes': t.require(2 * r.n <= MAXN)   # a mid-point may be (left + right) / 2
        row = t.int('row'); col = t.int('col')
        if pos == 'yes':
            P, n = r.P, r.n
            q = r.cols * row + col

            def inv(c):
                for N, a in c.int_locs():
                    for M, b in c.int_locs():
                        if N == M: continue
                        yield 'left part below %s' % N, lambda s, a=a: forall(lambda k: z3.Implies(rng(0, k, a(s)), sel(P, k) < q), 1, lambda k: sel(P, k))
                        yield 'right part above %s' % N, lambda s, a=a: forall(lambda k: z3.Implies(z3.And(k > a(s), k < n), sel(P, k) > q), 1, lambda k: sel(P, k))
                        yield 'a<=b+1 %s %s' % (N, M), lambda s, a=a, b=b: a(s) <= b(s) + 1
                    yield '0<= %s' % N, lambda s, a=a: a(s) >= 0
                    yield '<n %s' % N, lambda s, a=a: a(s) < n
                    yield '<=n %s' % N, lambda s, a=a: a(s) <= n
                    yield '-1<= %s' % N, lambda s, a=a: a(s) >= -1
            t.inv(inv)
        t.call('int ' * 0 + r.method('GetPosition(int, int)'), r.ptr(), row, col)
        ok = z3.And(row >= 0, row < r.rows, col >= 0, col < r.cols)
        q = row * r.cols + col
        for s in t.rets:
            t.ensure(s, z3.Implies(z3.Not(ok), s.ret == -2), 'out-of-range row/col gives -2')
            if pos == 'no':
                t.ensure(s, z3.Implies(ok, s.ret == q), 'cell index is row*cols+col')
            else:
                t.ensure(s, z3.Implies(z3.And(ok, s.ret >= 0), z3.And(s.ret < r.n, sel(r.P, s.ret) == q)), 'a returned index denotes that row and column')
                t.ensure(s, z3.Implies(z3.And(ok, s.ret < 0), z3.And(s.ret == -1, forall(lambda k: z3.Implies(rng(0, k, r.n), sel(r.P, k) != q), 1, lambda k: sel(r.P, k)))), 'a -1 means the cell is not stored')
        t.unchanged(r.objs())


for v in VAR: getpos(*v)


# ---------------------------------------------------------------- C10 reading and writing cells
def idxof(r, s, row, col):
    """(ok, k -> k denotes the stored cell of (row, col))"""
    ok = z3.And(row >= 0, row < r.rows, col >= 0, col < r.cols)
    q = r.cols * row + col
    if r.pos == 'no': return ok, lambda k: k == q
    return ok, lambda k: z3.And(k >= 0, k < r.n, sel(r.P, k) == q)


def cellpost(t, r, s, row, col, f, name):
    """f(k) for the stored index k of the cell, or f(None) when it is not stored / out of range"""
    ok, is_ = idxof(r, s, row, col)
    if r.pos == 'no':
        t.ensure(s, z3.Implies(ok, f(r.cols * row + col)), name + ' (stored cell)')
        t.ensure(s, z3.Implies(z3.Not(ok), f(None)), name + ' (outside the grid)')
    else:
        t.ensure(s, z3.Implies(ok, forall(lambda k: z3.Implies(is_(k), f(k)), 1, lambda k: sel(r.P, k))), name + ' (stored cell)')
        none = forall(lambda k: z3.Not(is_(k)), 1, lambda k: sel(r.P, k))
        t.ensure(s, z3.Implies(z3.Or(z3.Not(ok), none), f(None)), name + ' (not stored or outside)')


def getvalue(T, two, pos):
    @task('C10', 'GetValue(row,col,lyr) %s' % vn(T, two, pos), TUR)
    def _(t):
        r = Raster(t, T, two=two, pos=pos); spec_getpos(r)
        row = t.int('row'); col = t.int('col'); lyr = t.int('lyr')
        t.call(r.method('GetValue(int, int, int)'), r.ptr(), row, col, lyr)
        lok = z3.And(lyr >= 1, lyr <= r.lyrs)
        for s in t.rets:
            cellpost(t, r, s, row, col, lambda k: s.ret == r.nd if k is None else s.ret == z3.If(lok, r.val0(k, lyr - 1), r.nd), 'value of the cell')
        t.unchanged(r.objs())

    @task('C10', 'SetValue %s' % vn(T, two, pos), TUR)
    def _(t):
        r = Raster(t, T, two=two, pos=pos); spec_getpos(r)
        row = t.int('row'); col = t.int('col'); lyr = t.int('lyr'); v = t.val(ty_of(T), 'value')
        t.call(r.method('SetValue(int, int, %s, int)' % T), r.ptr(), row, col, v, lyr)
        lok = z3.And(lyr >= 1, lyr <= r.lyrs)

        def same_all(s): return forall(lambda i, l: z3.Implies(z3.And(rng(0, i, r.n), rng(0, l, r.lyrs)), r.val(s, i, l) == r.val0(i, l)), 2)
        for s in t.rets:
            cellpost(t, r, s, row, col, lambda k: same_all(s) if k is None else z3.If(lok, z3.And(
                r.val(s, k, lyr - 1) == v,
                forall(lambda i, l: z3.Implies(z3.And(rng(0, i, r.n), rng(0, l, r.lyrs), z3.Not(z3.And(i == k, l == lyr - 1))), r.val(s, i, l) == r.val0(i, l)), 2)), same_all(s)), 'exactly that cell is written')
        t.unchanged([o for o in r.objs() if o != r.data])

    @task('C10', 'GetValueByIndex(i,lyr) %s' % vn(T, two, pos), TUR)
    def _(t):
        r = Raster(t, T, two=two, pos=pos)
        i = t.int('i'); lyr = t.int('lyr')
        t.call(r.method('GetValueByIndex(int, int)'), r.ptr(), i, lyr)
        ok = z3.And(i >= 0, i < r.n, lyr >= 1, lyr <= r.lyrs)
        t.ensure_all(lambda s: s.ret == z3.If(ok, r.val0(i, lyr - 1), r.nd), 'value of the stored cell')
        t.unchanged(r.objs())

    for fn in ('GetValueByIndex', 'GetValue'):
        def body(t, fn=fn):
            r = Raster(t, T, two=two, pos=pos)
            array_specs(t.E, t.mod)
            if fn == 'GetValue': spec_getpos(r)
            given = t.array('values', ty_of(T), r.lyrs, kind='new[]')
            p0 = Ptr(z3.Int('values.obj'), 0)
            t.require(z3.Or(p0.obj == 0, p0.obj == given))
            cp = t.cell(PTR, p0, 'values')
            if fn == 'GetValue': row = t.int('row'); col = t.int('col'); args = (row, col)
            else: i = t.int('i'); args = (i,)

            def inv(c):
                for oid, off, ty in c.arrays():
                    for N, x in c.int_locs():
                        if fn == 'GetValueByIndex':
                            yield 'copied %s' % N, lambda s, oid=oid, off=off, x=x: forall(lambda k: z3.Implies(rng(0, k, x(s)), sel(s.mem[oid].arrs[off][1], k) == r.val0(i, k)))
                        else:
                            yield 'nodata %s' % N, lambda s, oid=oid, off=off, x=x: forall(lambda k: z3.Implies(rng(0, k, x(s)), sel(s.mem[oid].arrs[off][1], k) == r.nd))
                            if pos == 'no': yield 'copied %s' % N, lambda s, oid=oid, off=off, x=x: forall(lambda k: z3.Implies(rng(0, k, x(s)), sel(s.mem[oid].arrs[off][1], k) == r.val0(r.cols * row + col, k)))
                            else: yield 'copied %s' % N, lambda s, oid=oid, off=off, x=x: forall(lambda k, m: z3.Implies(z3.And(rng(0, k, x(s)), rng(0, m, r.n), sel(r.P, m) == r.cols * row + col), sel(s.mem[oid].arrs[off][1], k) == r.val0(m, k)), 2, lambda k, m: z3.MultiPattern(sel(s.mem[oid].arrs[off][1], k), sel(r.P, m)))
            t.inv(inv)
            t.call(r.method('%s(%s, %s*&)' % (fn, 'int, int' if fn == 'GetValue' else 'int', T)), r.ptr(), *args, Ptr(cp))
            for s, o in split(t, cp):

                def post(k):
                    if o == 0: return z3.BoolVal(k is None)
                    a = s.mem[o].arrs[0][1]
                    if k is None: return forall(lambda l: z3.Implies(rng(0, l, r.lyrs), sel(a, l) == r.nd))
                    return forall(lambda l: z3.Implies(rng(0, l, r.lyrs), sel(a, l) == r.val0(k, l)))
                if fn == 'GetValueByIndex':
                    ok = z3.And(i >= 0, i < r.n)
                    t.ensure(s, (ok if o else z3.Not(ok)), 'null result exactly for an invalid index')
                    if o: t.ensure(s, z3.Implies(ok, post(i)), 'all layers of the stored cell')
                else:
                    ok = z3.And(row >= 0, row < r.rows, col >= 0, col < r.cols)
                    t.ensure(s, (ok if o else z3.Not(ok)), 'null result exactly outside the grid')
                    if o: cellpost2(t, r, s, row, col, post)
                if o: t.ensure(s, z3.Or(p0.obj == o, z3.And(p0.obj == 0, t.E.obj_len(s, o) == r.lyrs)), 'the given block, or a fresh block of one value per layer')
                if o != given: t.ensure(s, z3.Implies(p0.obj == given, z3.BoolVal(not s.mem[given].alive)), 'the given block is released when the result is null')
            t.unchanged(r.objs())
        task('C10', '%s(..,T*&) %s' % (fn, vn(T, two, pos)), TUR)(body)


def cellpost2(t, r, s, row, col, post):
    ok, is_ = idxof(r, s, row, col)
    if r.pos == 'no':
        t.ensure(s, z3.Implies(ok, post(r.cols * row + col)), 'all layers of the cell')
    else:
        t.ensure(s, z3.Implies(ok, forall(lambda k: z3.Implies(is_(k), post(k)), 1, lambda k: sel(r.P, k))), 'all layers of the stored cell')
        none = forall(lambda k: z3.Not(is_(k)), 1, lambda k: sel(r.P, k))
        t.ensure(s, z3.Implies(z3.And(ok, none), post(None)), 'no-data for every layer of a cell that is not stored')


for v in VAR: getvalue(*v)


# ---------------------------------------------------------------- C11 coordinates <-> row/col
def geo(T='float', pos='no'):
    def setup(t, other=False):
        r = Raster(t, T, two=False, pos=pos)
        if not other:
            t.require(r.dx > 0)
            return r, r.ptr(), r.rows, r.cols, r.xll, r.yll, r.dx
        rows = t.int('h.rows'); cols = t.int('h.cols'); t.require(z3.And(rows >= 1, cols >= 1, rows * cols <= MAXN))
        node = sym_map(t.E, t.st, 'string', 'double', 'h')
        v = t.st.mem[node].arrs[32][1]; h = t.st.mem[node].arrs['has'][1]
        for k, x in (('NROWS', rows), ('NCOLS', cols)): v = z3.Store(v, lit(H[k]), z3.ToReal(x))
        t.st.w(node).arrs[32] = (DOUBLE, v)
        t.require(z3.And(*[sel(h, lit(H[k])) for k in ('NROWS', 'NCOLS', 'XLL', 'YLL', 'CELLSIZE')]))
        o = t.struct('header'); t.st.w(o).cells[0] = ('stl', MapV(node))
        g = lambda k: sel(v, lit(H[k]))
        t.require(g('CELLSIZE') > 0)
        return r, Ptr(o), rows, cols, g('XLL'), g('YLL'), g('CELLSIZE')

    @task('C11', 'GetCoordinateByRowCol', TUR)
    def _(t):
        r, _, rows, cols, xll, yll, dx = setup(t)
        row = t.int('row'); col = t.int('col')
        t.require(z3.And(row >= 0, row < rows, col >= 0, col < cols))
        t.call(r.method('GetCoordinateByRowCol(int, int)'), r.ptr(), row, col)
        for s in t.rets:
            x, y = s.ret
            t.ensure(s, x == xll + z3.ToReal(col) * dx, 'x of the cell centre')
            t.ensure(s, y == yll + z3.ToReal(rows - row - 1) * dx, 'y of the cell centre')
        t.unchanged(r.objs())

    for other in (False, True):
        def body(t, other=other):
            r, hp, rows, cols, xll, yll, dx = setup(t, other)
            x = t.real('x'); y = t.real('y')
            t.call(r.method('GetPositionByCoordinate(double, double, %s*)' % 'STRDBL_MAP'), r.ptr(), x, y, hp if other else NULL)
            for s in t.rets:
                a, b = pair_of(s.ret)
                geopost(t, s, a, b, rows, cols, xll, yll, dx, x, y)
            t.unchanged(r.objs())
        task('C11', 'GetPositionByCoordinate(%s)' % ('given header' if other else 'own header'), TUR)(body)

    @task('C11', 'round trip of a cell centre', TUR)
    def _(t):
        r, hp, rows, cols, xll, yll, dx = setup(t)
        row = t.int('row'); col = t.int('col')
        t.require(z3.And(row >= 0, row < rows, col >= 0, col < cols))
        x = xll + z3.ToReal(col) * dx; y = yll + z3.ToReal(rows - row - 1) * dx   # the contract of GetCoordinateByRowCol
        t.call(r.method('GetPositionByCoordinate(double, double, STRDBL_MAP*)'), r.ptr(), x, y, NULL)
        for s in t.rets:
            a, b = pair_of(s.ret)
            t.ensure(s, z3.And(a == row, b == col), 'GetPositionByCoordinate undoes GetCoordinateByRowCol')

    for fl in ('double', 'float'):
        for pos in ('no', 'yes'):
            def body(t, fl=fl, pos=pos):
                r = Raster(t, T, two=False, pos=pos); spec_getpos(r)
                t.require(r.dx > 0)
                t.require(z3.And(*[z3.Or(v - NODATA >= EPS, NODATA - v >= EPS) for v in (r.xll, r.yll, r.dx)]))
                x = t.flt('x') if fl == 'float' else t.real('x'); y = t.flt('y') if fl == 'float' else t.real('y')
                t.call(r.method('GetPosition(%s, %s)' % (fl, fl)), r.ptr(), x, y)
                R = z3.ToReal
                xmin = r.xll - r.dx / 2; ymin = r.yll - r.dx / 2
                inside = z3.And(x >= xmin, x < xmin + r.dx * R(r.cols), y > ymin, y <= ymin + r.dx * R(r.rows))
                row = t.int('crow'); col = t.int('ccol')
                cellof = z3.And(xmin + R(col) * r.dx <= x, x < xmin + (R(col) + 1) * r.dx, ymin + r.dx * R(r.rows) - R(row) * r.dx >= y, y > ymin + r.dx * R(r.rows) - (R(row) + 1) * r.dx)
                inside0, cellof0 = inside, cellof
                for s in t.rets:
                    inside, cellof = inside0, cellof0
                    t.ensure(s, z3.Implies(z3.Not(inside), s.ret == -2), 'a point outside the grid gives -2')
                    # the containing cell (row, col) is any pair satisfying cellof
                    q = r.cols * row + col
                    if 'getpos' in s.ghost:
                        ga, gb = s.ghost['getpos']
                        lem = z3.Implies(z3.And(inside, cellof), z3.And(ga == row, gb == col))
                        t.ensure(s, lem, 'the cell looked up contains the point')
                        cin = z3.And(0 <= row, row < r.rows, 0 <= col, col < r.cols)
                        lem2 = z3.Implies(z3.And(inside, cellof), cin)
                        t.ensure(s, lem2, 'the containing cell is inside the grid')
                        q = r.cols * ga + gb
                        inside = cellof = z3.And(0 <= ga, ga < r.rows, 0 <= gb, gb < r.cols)   # implied by the two obligations above
                    if pos == 'no': t.ensure(s, z3.Implies(z3.And(inside, cellof), s.ret == q), 'index of the cell that contains the point')
                    else:
                        t.ensure(s, z3.Implies(z3.And(inside, cellof, s.ret >= 0), z3.And(s.ret < r.n, sel(r.P, s.ret) == q)), 'a stored index denotes the cell that contains the point')
                        t.ensure(s, z3.Implies(z3.And(inside, cellof, s.ret < 0), z3.And(s.ret == -1, forall(lambda k: z3.Implies(rng(0, k, r.n), sel(r.P, k) != q), 1, lambda k: sel(r.P, k)))), '-1 only when that cell is not stored')
                t.unchanged(r.objs())
            task('C11', 'GetPosition(%s,%s) %s' % (fl, fl, 'positions' if pos == 'yes' else 'full grid'), TUR)(body)


NODATA = z3.RealVal(-9999)


def pair_of(v):
    if isinstance(v, Packed):
        d = {o: x for o, _, x in v.parts}
        return d[0], d[4]
    raise Unsupported('pair result %r' % (v,))


def geopost(t, s, a, b, rows, cols, xll, yll, dx, x, y):
    h = dx / 2
    xmin = xll - h; ymin = yll - h
    R = z3.ToReal
    inside = z3.And(x >= xmin, x < xmin + dx * R(cols), y > ymin, y <= ymin + dx * R(rows))
    t.ensure(s, z3.Implies(z3.Not(inside), z3.And(a == -1, b == -1)), 'a point outside the grid gives (-1,-1)')
    t.ensure(s, z3.Implies(inside, z3.And(xmin + R(b) * dx <= x, x < xmin + (R(b) + 1) * dx)), 'the column contains the point')
    t.ensure(s, z3.Implies(inside, z3.And(ymin + dx * R(rows) - R(a) * dx >= y, y > ymin + dx * R(rows) - (R(a) + 1) * dx)), 'the row contains the point')
    t.ensure(s, z3.Implies(inside, z3.And(b >= 0, b < cols, a >= 0, a < rows)), 'row and column are inside the grid')


geo()


# ---------------------------------------------------------------- C12 compaction to the valid cells
def fneq(a, b): return z3.Not(EQ(a, b))


def counter(t, r, valid):
    """ghost: CNT(q) = number of valid cells before q"""
    CNT = fold(t, 'cnt', I(0), lambda F, k: F + z3.If(valid(k), 1, 0), lambda k: valid_trig(k), z3.IntSort())
    return CNT


def compaction(T, two, bothn):
    @task('C12', 'CalculateValidPositionsFromGridData %s' % ('%s,%s' % (T, '2D' if two else '1D')), TUR, cost=30)
    def _(t):
        E = t.E
        r = Raster(t, T, two=two, pos='no'); array_specs(E, t.mod)
        full = r.rows * r.cols
        nc = r.cols
        t.require(2 * full <= MAXN)
        A0 = r.A0
        valid = lambda q: z3.Not(EQ(r.val0(q, 0), r.nd))
        CNT = z3.Function('cnt!%d' % next(E.names), z3.IntSort(), z3.IntSort())
        q_ = z3.Int('q')
        trig = sel(A0, q_)
        E.side_axioms.append(CNT(0) == 0)
        E.side_axioms.append(z3.ForAll([q_], z3.Implies(q_ >= 0, z3.And(CNT(q_ + 1) == CNT(q_) + z3.If(valid(q_), 1, 0))), patterns=[CNT(q_), trig]))
        # counting lemmas (induction on q): 0 <= CNT(q) <= q, and CNT is monotone
        E.side_axioms.append(z3.ForAll([q_], z3.Implies(q_ >= 0, z3.And(CNT(q_) >= 0, CNT(q_) <= q_)), patterns=[CNT(q_)]))
        p_ = z3.Int('p')
        E.side_axioms.append(z3.ForAll([p_, q_], z3.Implies(z3.And(0 <= p_, p_ <= q_), CNT(p_) <= CNT(q_)), patterns=[z3.MultiPattern(CNT(p_), CNT(q_))]))
        t.require(CNT(full) >= 1)

        def inv(c):
            ivs = [(o, off) for o, off, ty in c.arrays() if E.info[o].kind == 'vec' and off == 0 and ty.k == 'int' and E.info[o].rows is None]
            tvs = [(o, off) for o, off, ty in c.arrays() if E.info[o].kind == 'vec' and off == 0 and same_ty(ty, ty_of(T)) and E.info[o].rows is None]
            curs = []
            for N, x in c.int_locs():
                if '.n#' in N: continue
                curs.append((N + '*nc', lambda s, x=x: x(s) * nc))
                for M, y in c.frame_ints():
                    curs.append((M + '*nc+' + N, lambda s, x=x, y=y: y(s) * nc + x(s)))
            curs = [cu for cu in curs if True][:14]
            for N, cur in curs:
                for a, _ in ivs + [v for v in tvs if v not in ivs]:
                    yield 'length#%d is the count at %s' % (a, N), lambda s, a=a, cur=cur: s.mem[a].n == CNT(cur(s))
            seen = set()
            for a, _ in ivs:
                for b, _ in ivs:
                    if a == b: continue
                    pa = lambda s, k, a=a: sel(s.mem[a].arrs[0][1], k)
                    pb = lambda s, k, b=b: sel(s.mem[b].arrs[0][1], k)
                    yield 'entries are valid cells %d,%d' % (a, b), lambda s, a=a, pa=pa, pb=pb: forall(lambda k: z3.Implies(rng(0, k, s.mem[a].n), z3.And(
                        pa(s, k) >= 0, pa(s, k) < r.rows, pb(s, k) >= 0, pb(s, k) < nc, valid(pa(s, k) * nc + pb(s, k)), CNT(pa(s, k) * nc + pb(s, k)) == k)), 1, lambda k: pa(s, k))
                    for N, cur in curs:
                        yield 'every valid cell is listed %d,%d %s' % (a, b, N), lambda s, pa=pa, pb=pb, cur=cur: forall(lambda q: z3.Implies(z3.And(rng(0, q, cur(s)), valid(q)), z3.And(
                            CNT(q) >= 0, CNT(q) < CNT(cur(s)), pa(s, CNT(q)) * nc + pb(s, CNT(q)) == q)), 1, lambda q: sel(A0, q))
                    for v, _ in tvs:
                        if v in (a, b): continue
                        yield 'values follow %d,%d,%d' % (a, b, v), lambda s, a=a, pa=pa, pb=pb, v=v: forall(lambda k: z3.Implies(rng(0, k, s.mem[a].n), sel(s.mem[v].arrs[0][1], k) == r.val0(pa(s, k) * nc + pb(s, k), 0)), 1, lambda k: sel(s.mem[v].arrs[0][1], k))
            # filling the new arrays
            for o, off, ty in c.arrays():
                if E.info[o].kind == 'vec' or E.info[o].kind == 'map': continue
                vecs = [(x, s0) for x, s0 in c.entry.mem.items() if E.info[x].kind == 'vec' and s0.alive]
                for N, x in c.int_locs():
                    for vo, _ in vecs:
                        if E.info[vo].rows is not None: continue
                        vt = E.info[vo].ty
                        va = lambda s, k, vo=vo: sel(s.mem[vo].arrs[0][1], k)
                        if E.info[o].rows is None:
                            if same_ty(vt, ty): yield 'copy %d<-%d %s' % (o, vo, N), lambda s, o=o, off=off, va=va, x=x: forall(lambda k: z3.Implies(rng(0, k, x(s)), sel(s.mem[o].arrs[off][1], k) == va(s, k)), 1, lambda k: sel(s.mem[o].arrs[off][1], k))
                            for vo2, _ in vecs:
                                if vo2 != vo and E.info[vo2].rows is None and vt.k == 'int' and E.info[vo2].ty.k == 'int' and ty.k == 'int':
                                    vb = lambda s, k, vo2=vo2: sel(s.mem[vo2].arrs[0][1], k)
                                    yield 'index %d<-%d,%d %s' % (o, vo, vo2, N), lambda s, o=o, off=off, va=va, vb=vb, x=x: forall(lambda k: z3.Implies(rng(0, k, x(s)), sel(s.mem[o].arrs[off][1], k) == va(s, k) * nc + vb(s, k)), 1, lambda k: sel(s.mem[o].arrs[off][1], k))
                        elif same_ty(vt, ty):
                            for cc in (0, 1):
                                yield 'column%d %d<-%d %s' % (cc, o, vo, N), lambda s, o=o, off=off, va=va, x=x, cc=cc: forall(lambda k: z3.Implies(rng(0, k, x(s)), sel(sel(s.mem[o].arrs[off][1], k), cc) == va(s, k)), 1, lambda k: sel(s.mem[o].arrs[off][1], k))
        t.inv(inv)
        t.call(r.method('CalculateValidPositionsFromGridData()'), r.ptr())
        for s in t.rets:
            n2 = r.f(s, 'n_cells_')
            t.ensure(s, n2 == CNT(full), 'one stored cell per valid cell')
            has, v = r.hdr(s, 'CELLSNUM')
            t.ensure(s, z3.And(has, v == z3.ToReal(n2)), 'the header carries the new number of cells')
            ro = [ival(simp(r.f(s, f).obj)) for f in ('raster_2d_' if two else 'raster_', 'pos_data_', 'pos_idx_')]
            if None in ro: raise Unsupported('data pointers')
            t.ensure(s, z3.BoolVal(0 not in ro), 'data and positions are allocated')
            if 0 in ro: continue
            D = data2(E, s, ro[1]); P = s.mem[ro[2]].arrs[0][1]
            t.ensure(s, E.obj_len(s, ro[2]) == n2, 'one position per stored cell')
            t.ensure(s, forall(lambda k: z3.Implies(rng(0, k, n2), z3.And(sel(P, k) >= 0, sel(P, k) < full, valid(sel(P, k)), CNT(sel(P, k)) == k)), 1, lambda k: sel(P, k)), 'every position is a valid cell')
            t.ensure(s, forall(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n2), sel(P, i) < sel(P, j)), 2, lambda i, j: z3.MultiPattern(sel(P, i), sel(P, j))), 'positions ascend strictly')
            t.ensure(s, forall(lambda q: z3.Implies(z3.And(rng(0, q, full), valid(q)), z3.And(CNT(q) >= 0, CNT(q) < n2, sel(P, CNT(q)) == q)), 1, lambda q: sel(A0, q)), 'every valid cell is stored')
            t.ensure(s, forall(lambda k: z3.Implies(rng(0, k, n2), z3.And(sel(sel(D, k), 0) * nc + sel(sel(D, k), 1) == sel(P, k), sel(sel(D, k), 0) >= 0, sel(sel(D, k), 0) < r.rows, sel(sel(D, k), 1) >= 0, sel(sel(D, k), 1) < nc)), 1, lambda k: sel(P, k)), 'row and column agree with the index')
            if two:
                A = data2(E, s, ro[0])
                t.ensure(s, forall(lambda k, l: z3.Implies(z3.And(rng(0, k, n2), rng(0, l, r.lyrs)), sel(sel(A, k), l) == r.val0(sel(P, k), l)), 2, lambda k, l: z3.MultiPattern(sel(P, k), sel(sel(A, k), l))), 'stored values of every layer are those of the cell')
            else:
                A = s.mem[ro[0]].arrs[0][1]
                t.ensure(s, forall(lambda k: z3.Implies(rng(0, k, n2), sel(A, k) == r.val0(sel(P, k))), 1, lambda k: sel(P, k)), 'stored values are those of the cell')
            t.ensure(s, z3.And(r.f(s, 'calc_pos_') == 1, r.f(s, 'store_pos_') == 1), 'flags')
            t.ensure(s, z3.BoolVal(not s.mem[r.data].alive and (not two or not s.mem[r.rowp].alive)), 'the old data is released')


def same_ty(a, b): return a.k == b.k and a.bits == b.bits


def data2(E, s, ro):
    c = ival(simp(sel(s.mem[ro].arrs[0][1][0], 0)))
    if c is None: raise Unsupported('row array')
    return s.mem[c].arrs[0][1]


for T in ('float', 'int'):
    for two in (False, True): compaction(T, two, 0)
