"""symbolic raster objects that satisfy the class invariant of clsRasterData"""
from llvc.api import *
from llvc import stl2
from llvc.stl2 import lit, MapV, StrV, MapT, new_map, sym_map, new_vec, VecV, STR
from .specs import *

TUR = 'raster.cpp'
H = dict(NODATA='NODATA_VALUE', XLL='XLLCENTER', YLL='YLLCENTER', XLLCOR='XLLCORNER', YLLCOR='YLLCORNER', NROWS='NROWS', NCOLS='NCOLS',
         CELLSIZE='CELLSIZE', LAYERS='LAYERS', CELLSNUM='CELLSNUM')
MAXN = 0x7fffffff
_lay = {}


def layout(mod, cls):
    """member offsets (bytes) of a class from the debug information"""
    k = (id(mod), cls)
    if k in _lay: return _lay[k]
    md = mod.md
    out = {}
    for i, t in md.items():
        if 'DICompositeType' in t and 'name: "%s"' % cls in t and 'elements:' in t and 'DIFlagFwdDecl' not in t:
            els = md[int(re.search(r'elements: !(\d+)', t).group(1))]
            for e in re.findall(r'!(\d+)', els):
                m = md[int(e)]
                if 'DW_TAG_member' in m and 'DIFlagStaticMember' not in m and 'name:' in m:
                    o = re.search(r'offset: (\d+)', m)
                    out[re.search(r'name: "(\w+)"', m).group(1)] = int(o.group(1)) // 8 if o else 0
            break
    if not out: raise Unsupported('class layout of ' + cls)
    _lay[k] = out
    return out


class Raster:
    """One clsRasterData<T,M>. `two`: 2-D storage; `pos`: 'no' (positions not computed) or 'yes'.
    WF: 1 <= rows, cols; rows*cols <= 2^31-1; layers >= 1; without positions n_cells == rows*cols; with positions
    pos_idx_ is strictly ascending, in [0, rows*cols), and pos_data_[k] = (row, col) of pos_idx_[k]."""
    def __init__(self, t, T='float', M='int', two=False, pos='no', name='rs', null=False, maxcells=None, symcontent=True, n_cells=None, header=None, valid=True, halfpos=False):
        E, st = t.E, t.st
        self.t, self.T, self.M, self.two, self.pos, self.name = t, T, M, two, pos, name
        self.cls = 'clsRasterData<%s, %s>' % (T, M)
        L = self.L = layout(t.mod, self.cls)
        self.oid = t.struct(name)
        self.rows = rows = t.int(name + '.rows'); self.cols = cols = t.int(name + '.cols')
        self.lyrs = lyrs = t.int(name + '.lyrs')
        self.n = n = t.int(name + '.n_cells')
        self.nd = t.val(ty_of(T), name + '.nodata')
        self.defv = t.real(name + '.default')
        t.require(z3.And(rows >= 1, cols >= 1, rows * cols <= MAXN, n >= 1))
        full = rows * cols
        if not two: t.require(lyrs == 1)
        else: t.require(z3.And(lyrs >= 1, n * lyrs <= MAXN))
        if pos == 'no': t.require(n == full)
        else: t.require(z3.And(n <= full, 2 * n <= MAXN) if halfpos else n <= full)
        self.hnode = sym_map(E, st, 'string', 'double', name + '.hdr')
        hn = st.mem[self.hnode]
        v0 = hn.arrs[32][1]
        for k, v in (('NROWS', rows), ('NCOLS', cols)): v0 = z3.Store(v0, lit(H[k]), z3.ToReal(v))
        st.w(self.hnode).arrs[32] = (DOUBLE, v0)
        self.has0, self.hval0 = hn.arrs['has'][1], v0
        self.dx = self.hv('CELLSIZE'); self.xll = self.hv('XLL'); self.yll = self.hv('YLL')
        t.require(z3.And(self.hh('NROWS'), self.hh('NCOLS')))
        t.require(z3.And(*[self.hh(k) for k in ('XLL', 'YLL', 'CELLSIZE', 'NODATA', 'LAYERS', 'CELLSNUM')]))
        w = st.w(self.oid)
        c = w.cells

        def put(f, ty, v): w.cells[L[f]] = (ty, v)
        put('n_cells_', I32, n); put('n_lyrs_', I32, lyrs)
        self.rt = t.int(name + '.type'); self.rto = t.int(name + '.type_out')
        put('rs_type_', I32, self.rt); put('rs_type_out_', I32, self.rto)
        put('no_data_value_', ty_of(T), self.nd); put('default_value_', DOUBLE, self.defv)
        put('mask_', PTR, NULL)
        BT = INT[8]
        for f, v in (('initialized_', 1), ('is_2draster', int(two)), ('calc_pos_', int(pos != 'no')), ('store_pos_', int(pos != 'no'))): put(f, BT, I(v))
        self.sc = z3.Int(name + '.stats_calculated')
        st.assume(z3.And(self.sc >= 0, self.sc <= 1)); put('stats_calculated_', BT, self.sc)
        ume = z3.Int(name + '.ume'); st.assume(z3.And(ume >= 0, ume <= 1)); put('use_mask_ext_', BT, ume)
        w.cells[L['headers_']] = ('stl', MapV(self.hnode))
        self.onode = sym_map(E, st, 'string', 'string', name + '.opts')
        st.w(self.oid).cells[L['options_']] = ('stl', MapV(self.onode))
        self.s1 = sym_map(E, st, 'string', 'double', name + '.stats'); st.w(self.oid).cells[L['stats_']] = ('stl', MapV(self.s1))
        self.s2 = sym_map(E, st, 'string', 'double*', name + '.stats2'); st.w(self.oid).cells[L['stats_2d_']] = ('stl', MapV(self.s2))
        self.sub = new_map(E, st, MapT('int', 'SubsetPositions*'), name + '.subset'); st.w(self.oid).cells[L['subset_']] = ('stl', MapV(self.sub))
        self.fp = z3.Int(name + '.full_path'); self.cn = z3.Int(name + '.core_name')
        st.w(self.oid).cells[L['full_path_']] = ('stl', StrV(self.fp)); st.w(self.oid).cells[L['core_name_']] = ('stl', StrV(self.cn))
        self.data = self.rowp = None
        w = st.w(self.oid)
        if null:
            put('raster_', PTR, NULL); put('raster_2d_', PTR, NULL)
        elif two:
            self.rowp, self.data = t.array2d(name + '.raster_2d', ty_of(T), n, lyrs, kind='new[]')
            w = st.w(self.oid)
            put('raster_2d_', PTR, Ptr(self.rowp)); put('raster_', PTR, NULL)
        else:
            self.data = t.array(name + '.raster', ty_of(T), n, kind='new[]')
            w = st.w(self.oid)
            put('raster_', PTR, Ptr(self.data)); put('raster_2d_', PTR, NULL)
        self.A0 = t.content(self.data) if self.data else None
        if pos == 'no':
            put('pos_data_', PTR, NULL); put('pos_idx_', PTR, NULL)
        else:
            self.pidx = t.array(name + '.pos_idx', I32, n, kind='new[]')
            self.prow, self.pdat = t.array2d(name + '.pos_data', I32, n, I(2), kind='new[]')
            w = st.w(self.oid)
            put('pos_idx_', PTR, Ptr(self.pidx)); put('pos_data_', PTR, Ptr(self.prow))
            self.P = t.content(self.pidx); self.D = t.content(self.pdat)
            P, D = self.P, self.D
            t.require(forall(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), sel(P, i) < sel(P, j)), 2, lambda i, j: z3.MultiPattern(sel(P, i), sel(P, j))))
            t.require(forall(lambda i: z3.Implies(rng(0, i, n), z3.And(sel(P, i) >= 0, sel(P, i) < full)), 1, lambda i: sel(P, i)))
            t.require(forall(lambda i: z3.Implies(rng(0, i, n), z3.And(sel(sel(D, i), 0) >= 0, sel(sel(D, i), 0) < rows, sel(sel(D, i), 1) >= 0, sel(sel(D, i), 1) < cols,
                                                                     sel(P, i) == sel(sel(D, i), 0) * cols + sel(sel(D, i), 1))), 1, lambda i: sel(D, i)))

    def hh(self, k): return sel(self.has0, lit(H[k]))
    def hv(self, k): return sel(self.hval0, lit(H[k]))

    def hdr(self, s, k):
        o = s.mem[self.hnode]
        return sel(o.arrs['has'][1], lit(H[k])), sel(o.arrs[32][1], lit(H[k]))

    def f(self, s, name): return s.mem[self.oid].cells[self.L[name]][1]
    def ptr(self): return Ptr(self.oid)

    def val(self, s, i, l=0):
        """content of stored cell i, layer l (0-based)"""
        a = s.mem[self.data].arrs[0][1]
        return sel(sel(a, i), l) if self.two else sel(a, i)

    def val0(self, i, l=0):
        return sel(sel(self.A0, i), l) if self.two else sel(self.A0, i)

    def objs(self):
        o = [self.oid, self.hnode, self.onode, self.s1, self.s2, self.sub]
        for x in (self.data, self.rowp, getattr(self, 'pidx', None), getattr(self, 'prow', None), getattr(self, 'pdat', None)):
            if x is not None: o.append(x)
        return o

    def only(self, nm):
        """mangled name of the only method of this name"""
        c = [n for n in self.t.mod.fn_text if nm in n and self.t.mod.dem(n).startswith(self.cls + '::' + nm + '(')]
        if len(c) != 1: raise Unsupported('%d functions named %s' % (len(c), nm))
        return c[0]

    def method(self, m): return self.cls + '::' + m


class SpecGetPosition:
    """contract of GetPosition(row,col), proved in C09 for every variant"""
    def __init__(self, r): self.r = r

    def apply(self, E, st, a, inst):
        r = self.r
        E.oblige(st, a[0].obj == r.oid, 'pre-GetPosition: the raster under contract', inst)
        row, col = a[1], a[2]
        o = st.mem[r.oid].cells
        for f in ('n_cells_', 'calc_pos_', 'pos_idx_', 'pos_data_', 'raster_', 'raster_2d_', 'is_2draster'):
            if not simp(eqv(o[r.L[f]][1], r.c0[f])).eq(z3.BoolVal(True)): raise Unsupported('GetPosition after the raster object changed')
        ok = z3.And(row >= 0, row < r.rows, col >= 0, col < r.cols)
        q = r.cols * row + col
        v = E.fresh_int(st, 'getpos', 32)
        st.ghost['getpos'] = (row, col)
        st.assume(z3.Implies(z3.Not(ok), v == -2))
        if r.pos == 'no': st.assume(z3.Implies(ok, v == q))
        else:
            P = st.mem[r.pidx].arrs[0][1]
            st.assume(z3.Implies(ok, z3.Or(z3.And(v >= 0, v < r.n, sel(P, v) == q),
                                           z3.And(v == -1, forall(lambda k: z3.Implies(rng(0, k, r.n), sel(P, k) != q), 1, lambda k: sel(P, k))))))
        return [(st, v)]


def spec_getpos(r):
    r.c0 = {f: r.t.st.mem[r.oid].cells[o][1] for f, o in r.L.items() if o in r.t.st.mem[r.oid].cells}
    s = r.method('GetPosition(int, int)')
    r.t.E.specs[[r.t.mod.dem(n) for n in [r.t.mod.find(s)]][0]] = SpecGetPosition(r)


def split(t, cell, off=0):
    """return states with the object the pointer in `cell` designates: [(state, oid or 0)]"""
    out = []
    for s in t.rets:
        p = t.get(s, cell, off)
        out += [(s2, o) for s2, o in t.E.resolve(s, p)]
    return out
