"""C27 constructors establish the class invariant of a raster; C19 copies and destruction"""
from .maps import *
from .rstats import SIX, STK, basic_specs, stat_raster, layer_table, E_len

SK5 = SK


class Obj:
    """members of a raster object in a state"""
    def __init__(self, t, oid, T='float'):
        self.t, self.oid, self.T = t, oid, T
        self.L = layout(t.mod, 'clsRasterData<%s, int>' % T)

    def f(self, s, n): return s.mem[self.oid].cells[self.L[n]][1]
    def node(self, s, n): return self.f(s, n).oid


def flags(t, x, s, **k):
    for f, v in k.items(): t.ensure(s, x.f(s, f) == v, 'member %s' % f)


def names6(t, x, s):
    n1, n2 = x.node(s, 'stats_'), x.node(s, 'stats_2d_')
    for n in (n1, n2): t.ensure(s, key_all(lambda k: has(t, s, n, k) == one_of(k, STK)), 'exactly the six statistics are known')
    t.ensure(s, key_all(lambda k: z3.Implies(one_of(k, STK), mval(t, s, n2, k).obj == 0)), 'no layer statistics yet')


def null(t, x, s, *fs):
    for f in fs: t.ensure(s, x.f(s, f).obj == 0, '%s is null' % f)


def header_is(t, x, s, want):
    n = x.node(s, 'headers_')
    t.ensure(s, key_all(lambda k: has(t, s, n, k) == one_of(k, HK)), 'the header has exactly its eight entries')
    for k, v in want.items(): t.ensure(s, mval(t, s, n, lit(k)) == v, 'header entry %s' % k)


def opts_are(t, x, s, s0, on, srs=None):
    n = x.node(s, 'options_')
    def want(k):
        h = z3.Or(one_of(k, SK), has(t, s0, on, k) if on is not None else z3.BoolVal(False))
        v = z3.If(has(t, s0, on, k), mval(t, s0, on, k), 0) if on is not None else I(0)
        return h, v
    def body(k):
        h, v = want(k)
        if srs is not None: v = z3.If(k == lit('SRS'), srs, v)
        return z3.And(has(t, s, n, k) == h, z3.Implies(h, mval(t, s, n, k) == v))
    t.ensure(s, key_all(body), 'the given options, the standard ones empty otherwise')


@task('C27', 'default constructor', TUR)
def _(t):
    for T in ('float', 'int'):
        o = t.struct('rs'); x = Obj(t, o, T); b = z3.Int('is_2d'); t.require(z3.And(b >= 0, b <= 1))
        t.call('clsRasterData<%s, int>::clsRasterData(bool)' % T, Ptr(o), b == 1)
        for s in t.rets:
            null(t, x, s, 'raster_', 'raster_2d_', 'pos_data_', 'pos_idx_', 'mask_')
            flags(t, x, s, n_cells_=-1, n_lyrs_=-1, is_2draster=b, calc_pos_=0, store_pos_=0, use_mask_ext_=0, stats_calculated_=0, initialized_=1)
            names6(t, x, s); header_is(t, x, s, {k: NOD for k in HK}); opts_are(t, x, s, s, None)
            t.ensure(s, key_all(lambda k: z3.Not(has(t, s, x.node(s, 'subset_'), k))), 'no subsets')


def rdt(t, s0, on): return z3.If(has(t, s0, on, lit('DATATYPE_OUT')), strtype(mval(t, s0, on, lit('DATATYPE_OUT'))), 0)


for T in ('float', 'int'):
    for two in (False, True):
        for by in ('options', 'srs'):
            @task('C27', 'array constructor %s %s by %s' % (T, '2D' if two else '1D', by), TUR)
            def _(t, T=T, two=two, by=by):
                o = t.struct('rs'); x = Obj(t, o, T)
                rows = t.int('rows'); cols = t.int('cols'); lyrs = t.int('lyrs') if two else I(1)
                t.require(z3.And(rows >= 1, cols >= 1, rows * cols <= MAXN, lyrs >= 1))
                nd = t.val(ty_of(T), 'nodata'); dx = t.real('dx'); xll = t.real('xll'); yll = t.real('yll')
                if two: rp, da = t.array2d('data', ty_of(T), rows * cols, lyrs, kind='new[]'); dp = Ptr(rp)
                else: da = t.array('data', ty_of(T), rows * cols, kind='new[]'); dp = Ptr(da); rp = None
                if by == 'options': so, on = map_arg(t, 'string', 'string', 'opts'); last = 'STRING_MAP const&'; srs = None
                else: so, srs = sobj(t, 'srs'); on = None; last = 'string const&'
                s0 = t.st.clone()
                merge_specs(t)
                a = [Ptr(o), dp, cols, rows] + ([lyrs] if two else []) + [nd, dx, xll, yll, Ptr(so)]
                t.call('clsRasterData<%s, int>::clsRasterData(%s, int, int, %s%s, double, double, double, %s)' % (T, T + ('**' if two else '*'), 'int, ' if two else '', T, last), *a)
                for s in t.rets:
                    null(t, x, s, 'raster_' if two else 'raster_2d_', 'pos_data_', 'pos_idx_', 'mask_')
                    t.ensure(s, eqv(x.f(s, 'raster_2d_' if two else 'raster_'), dp), 'the given array is taken over')
                    flags(t, x, s, n_cells_=rows * cols, n_lyrs_=lyrs, is_2draster=int(two), calc_pos_=0, store_pos_=0, use_mask_ext_=0, stats_calculated_=0, initialized_=1)
                    t.ensure(s, x.f(s, 'no_data_value_') == nd, 'the no-data value')
                    header_is(t, x, s, dict(NROWS=z3.ToReal(rows), NCOLS=z3.ToReal(cols), XLLCENTER=xll, YLLCENTER=yll, CELLSIZE=dx, NODATA_VALUE=R(nd), LAYERS=z3.ToReal(lyrs), CELLSNUM=z3.ToReal(rows * cols)))
                    opts_are(t, x, s, s0, on, srs); names6(t, x, s)
                    t.ensure(s, x.f(s, 'rs_type_out_') == (rdt(t, s0, on) if on is not None else 0), 'the output type is the one the options name')
                    t.ensure(s, not [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive], 'nothing is allocated')
                t.unchanged([so, da] + ([rp] if rp else []) + ([on] if on else []))


for T in ('float', 'int'):
    for two in (False, True):
        for mtwo in (False, True):
            @task('C27', 'mask constructor %s %s on a %s mask' % (T, '2D' if two else '1D', '2D' if mtwo else '1D'), TUR)
            def _(t, T=T, two=two, mtwo=mtwo):
                array_specs(t.E, t.mod)
                o = t.struct('rs'); x = Obj(t, o, T)
                m = Raster(t, 'int', two=mtwo, pos='yes', name='mask')
                ln = t.int('len'); lyrs = t.int('lyrs') if two else I(1)
                t.require(z3.And(ln >= 1, lyrs >= 1, ln * lyrs <= MAXN))
                t.require(z3.And(m.hv('LAYERS') == z3.ToReal(m.lyrs), m.hv('CELLSNUM') == z3.ToReal(m.n)))
                if two: rp, da = t.array2d('values', ty_of(T), ln, lyrs, kind='new[]'); dp = Ptr(rp)
                else: da = t.array('values', ty_of(T), ln, kind='new[]'); dp = Ptr(da); rp = None
                so, on = map_arg(t, 'string', 'string', 'opts')
                s0 = t.st.clone(); A = t.content(da)
                merge_specs(t)
                a = [Ptr(o), m.ptr(), dp, ln] + ([lyrs] if two else []) + [Ptr(so)]
                t.call('clsRasterData<%s, int>::clsRasterData(clsRasterData<int, int>*, %s, int, %sSTRING_MAP const&)' % (T, T + ('**' if two else '*'), 'int, ' if two else ''), *a)
                for s in t.rets:
                    null(t, x, s, 'raster_' if two else 'raster_2d_')
                    flags(t, x, s, is_2draster=int(two), store_pos_=0, stats_calculated_=0); names6(t, x, s)
                    al = [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive]
                    rd = x.f(s, 'raster_2d_' if two else 'raster_')
                    if not t.E.feasible(s, ln == m.n):
                        t.ensure(s, z3.And(x.f(s, 'initialized_') == 0, rd.obj == 0), 'a wrong number of values leaves the raster uninitialised')
                        t.ensure(s, not al, 'nothing is allocated'); continue
                    if t.E.feasible(s, ln != m.n): t.ensure(s, False, 'the number of values is compared with that of the mask'); continue
                    flags(t, x, s, n_cells_=ln, n_lyrs_=lyrs, calc_pos_=1, use_mask_ext_=1, initialized_=1, default_value_=m.defv)
                    t.ensure(s, eqv(x.f(s, 'mask_'), m.ptr()), 'the mask is remembered')
                    for p in ('pos_data_', 'pos_idx_'): t.ensure(s, eqv(x.f(s, p), m.f(s0, p)), '%s is shared with the mask' % p)
                    ro = ival(simp(rd.obj))
                    t.ensure(s, ro in al and len(al) == (2 if two else 1), 'the values are a fresh array, the only allocation')
                    if not ro: continue
                    if two:
                        C = s.mem[ival(simp(sel(s.mem[ro].arrs[0][1][0], 0)))].arrs[0][1]
                        t.ensure(s, forall(lambda i, l: z3.Implies(z3.And(rng(0, i, ln), rng(0, l, lyrs)), sel(sel(C, i), l) == sel(sel(A, i), l)), 2), 'the values are copied')
                    else:
                        t.ensure(s, forall(lambda i: z3.Implies(rng(0, i, ln), sel(s.mem[ro].arrs[0][1], i) == sel(A, i))), 'the values are copied')
                    t.ensure(s, x.f(s, 'no_data_value_') == conv(t.E, s, m.nd, 'int', T), 'the no-data value of the mask')
                    h = x.node(s, 'headers_')
                    t.ensure(s, key_all(lambda k: has(t, s, h, k) == z3.Or(one_of(k, HK), has(t, s0, m.hnode, k))), 'header entries of the mask')
                    t.ensure(s, key_all(lambda k: z3.Implies(z3.And(has(t, s0, m.hnode, k), k != lit('LAYERS')), mval(t, s, h, k) == mval(t, s0, m.hnode, k))), 'header values of the mask')
                    t.ensure(s, z3.And(mval(t, s, h, lit('LAYERS')) == z3.ToReal(lyrs), mval(t, s, h, lit('CELLSNUM')) == z3.ToReal(ln)), 'the header states the layers and cells held')
                    n = x.node(s, 'options_')
                    t.ensure(s, key_all(lambda k: z3.And(has(t, s, n, k) == z3.Or(one_of(k, SK), has(t, s0, on, k)), z3.Implies(k != lit('SRS'), mval(t, s, n, k) == z3.If(has(t, s0, on, k), mval(t, s0, on, k), z3.If(one_of(k, SK), 0, mval(t, s, n, k)))))), 'the given options')
                    ms = z3.If(has(t, s0, m.onode, lit('SRS')), mval(t, s0, m.onode, lit('SRS')), 0)
                    v = mval(t, s, n, lit('SRS'))
                    t.ensure(s, z3.Or(v == ms, z3.And(has(t, s0, on, lit('SRS')), v == mval(t, s0, on, lit('SRS')))), 'the coordinate system of the mask, or the given one')
                    t.ensure(s, x.f(s, 'rs_type_out_') == rdt(t, s0, on), 'the output type is the one the options name')
                t.unchanged(m.objs() + [so, on, da] + ([rp] if rp else []))
