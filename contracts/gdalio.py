"""C17 writing a raster through GDAL; C18 reading one"""
from .maps import *
from .ctor import Obj, rdt
from llvc import gdal
from llvc.gdal import events

INTS = {'UInt8': (0, 2 ** 8 - 1, 8), 'Int8': (-2 ** 7, 2 ** 7 - 1, 8), 'UInt16': (0, 2 ** 16 - 1, 16), 'Int16': (-2 ** 15, 2 ** 15 - 1, 16),
        'UInt32': (0, 2 ** 32 - 1, 32), 'Int32': (-2 ** 31, 2 ** 31 - 1, 32), 'UInt64': (0, 2 ** 64 - 1, 64), 'Int64': (-2 ** 63, 2 ** 63 - 1, 64)}
CODE = dict(GDT, Int8=14)
OWN = {'float': 'Float', 'int': 'Int32'}


def R(v): return z3.ToReal(v) if v.sort() == z3.IntSort() else v


def tr(v): return v if v.sort() == z3.IntSort() else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


class SpecConst:
    def __init__(self, v): self.v = v
    def apply(self, E, st, a, inst): return [(st, self.v)]


class Written:
    """what the file of a raster of T written as `out` has to hold"""
    def __init__(self, T, out, nd):
        self.T, self.out, self.nd = T, out, nd
        self.conv = out not in ('Unknown', OWN[T])
        self.type = OWN[T] if out == 'Unknown' else out
        self.int = self.conv and self.type in INTS
        if self.int:
            self.lo, self.hi, self.bits = INTS[self.type]
            self.sent = self.hi if self.lo == 0 else self.lo
            self.change = z3.Or(nd < self.lo, nd >= self.hi + 1)

    def isnd(self, v): return z3.And(self.change, EQ(v, self.nd))

    def legal(self, v):
        if not self.int: return z3.BoolVal(True)
        return z3.Or(self.isnd(v), z3.And(R(v) >= self.lo, R(v) < self.hi + 1))

    def stored(self, E, st, v):
        """the value that stands for v in the file"""
        if not self.conv: return v
        if self.int: return z3.If(self.isnd(v), I(self.sent), tr(v))
        return conv(E, st, v, self.T, 'float' if self.type == 'Float' else 'double')

    def nodata(self):
        if self.int: return z3.If(self.change, z3.RealVal(2 ** 64 if self.sent == 2 ** 64 - 1 else self.sent), self.nd)
        return self.nd

    def read(self, x):
        """value of a file cell (signless in the IR)"""
        if self.conv and self.int and self.lo == 0: return z3.If(x < 0, x + self.hi + 1, x)
        return x


def write_specs(t, out):
    for nm in list(t.mod.fn_text):
        d = t.mod.dem(nm)
        if d.startswith('RasterDataTypeInOptionals('): t.E.specs[d] = SpecConst(I(RDT.index(out)))


def header_in(t, name='header'):
    ho, hn = map_arg(t, 'string', 'double', name)
    return ho, hn


def same_file(t, s, w, A, rows, cols, hn, on, name, s0):
    """the written file repeats the array, the header and the coordinate system"""
    cr = events(s, 'create'); io = events(s, 'io'); nd = events(s, 'nodata'); ge = events(s, 'geo'); sr = events(s, 'srs'); cl = events(s, 'close')
    t.ensure(s, len(cr) == 1 and len(io) == 1 and cr[0][-1] and io[0][3] and io[0][1] == 1, 'one file is written once')
    if not (len(cr) == 1 and len(io) == 1 and cr[0][-1] and io[0][3]): return
    t.ensure(s, z3.And(cr[0][1] == name, cr[0][2] == cols, cr[0][3] == rows, cr[0][4] == 1, cr[0][5] == CODE[w.type]), 'the file has the given name, columns, rows, one band and the output type')
    C = io[0][4]
    t.ensure(s, io[0][2] == CODE[w.type], 'the cells are handed over in the output type')
    q0 = lambda q: w.read(sel(C, q)) == w.stored(t.E, s, sel(A, q))
    t.ensure(s, forall(lambda q: z3.Implies(rng(0, q, rows * cols), q0(q))), 'every cell is stored as its own value')
    t.ensure(s, len(nd) == 1 and nd[0][1] == w.nodata(), 'the no-data value of the file')
    hv = lambda k: mval(t, s0, hn, lit(H[k]))
    dx = hv('CELLSIZE')
    want = [hv('XLL') - dx / 2, dx, 0, hv('YLL') + (z3.ToReal(rows) - z3.RealVal('1/2')) * dx, 0, -dx]
    t.ensure(s, len(ge) == 1 and z3.And(*[a == b for a, b in zip(ge[0][1:], want)]), 'the upper left corner and the cell size')
    k = lit('SRS')
    t.ensure(s, len(sr) == 1 and sr[0][1] == z3.If(has(t, s0, on, k), mval(t, s0, on, k), lit('')), 'the coordinate system')
    t.ensure(s, len(cl) == 1, 'the file is closed')


def geotiff_inv(t, w, A):
    def inv(c):
        for o, off, ty in c.arrays():
            if off != 0: continue
            for nm, g in c.int_locs():
                yield 'converted< %s' % nm, lambda s, o=o, g=g: forall(lambda q: z3.Implies(z3.And(rng(0, q, g(s)), w.legal(sel(A, q))), w.read(sel(s.mem[o].arrs[0][1], q)) == w.stored(t.E, s, sel(A, q))))
        ints = c.int_locs()
        for nm, g in ints:
            yield 'nonneg %s' % nm, lambda s, g=g: g(s) >= 0
            for n2, h in ints:
                if n2 == nm: continue
                yield 'none illegal %s %s' % (nm, n2), lambda s, g=g, h=h: z3.Implies(g(s) == 0, forall(lambda q: z3.Implies(rng(0, q, h(s)), w.legal(sel(A, q)))))
                yield 'counted %s %s' % (nm, n2), lambda s, g=g, h=h: z3.And(g(s) >= 0, g(s) <= h(s))
            if t.LEGAL is not None: yield 'all legal %s' % nm, lambda s, g=g: z3.Implies(t.LEGAL, g(s) == 0)
    t.inv(inv)


for T in ('float', 'int'):
    for out in RDT:
        @task('C17', 'WriteSingleGeotiff<%s> as %s' % (T, out), TUR)
        def _(t, T=T, out=out):
            fo, fn = sobj(t, 'filename'); ho, hn = map_arg(t, 'string', 'double', 'header'); oo, on = map_arg(t, 'string', 'string', 'opts')
            rows, cols = t.int('rows'), t.int('cols')
            t.require(z3.And(rows >= 1, cols >= 1, rows * cols <= MAXN))
            v0 = t.st.mem[hn].arrs[32][1]
            for k, v in (('NROWS', rows), ('NCOLS', cols)): v0 = z3.Store(v0, lit(H[k]), z3.ToReal(v))
            t.st.w(hn).arrs[32] = (DOUBLE, v0)
            for k in ('NROWS', 'NCOLS', 'XLL', 'YLL', 'CELLSIZE', 'NODATA'): t.require(has(t, t.st, hn, lit(H[k])))
            nd = mval(t, t.st, hn, lit(H['NODATA']))
            va = t.array('values', ty_of(T), rows * cols); A = t.content(va)
            w = Written(T, out, nd)
            if T == 'int': t.require(forall(lambda q: z3.And(sel(A, q) >= -MAXN - 1, sel(A, q) <= MAXN), 1, lambda q: sel(A, q)))
            s0 = t.st.clone()
            write_specs(t, out)
            t.LEGAL = None
            if w.int:
                t.require(nd == z3.ToReal(z3.ToInt(nd)))
                t.LEGAL = z3.Bool('every_cell_fits')
                t.require(t.LEGAL == forall(lambda q: z3.Implies(rng(0, q, rows * cols), w.legal(sel(A, q))), 1, lambda q: sel(A, q)))
            geotiff_inv(t, w, A)
            t.call('bool WriteSingleGeotiff<%s>(string const&, STRDBL_MAP const&, STRING_MAP const&, %s*)' % (T, T), Ptr(fo), Ptr(ho), Ptr(oo), Ptr(va))
            for s in t.rets:
                failed = any(not e[-1] for e in events(s, 'driver') + events(s, 'create')) or any(not e[3] for e in events(s, 'io'))
                ok = t.LEGAL if t.LEGAL is not None else z3.BoolVal(True)
                if failed: t.ensure(s, z3.Not(s.ret), 'a failure of GDAL is reported')
                else: t.ensure(s, s.ret == ok, 'the raster is written exactly if every cell fits the output type')
                if t.E.feasible(s, s.ret): same_file(t, s, w, A, rows, cols, hn, on, fn, s0)
                cr = [e for e in events(s, 'create') if e[-1]]
                t.ensure(s, len(events(s, 'close')) == len(cr), 'every file created is closed')
                t.ensure(s, not [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive], 'nothing stays allocated')
            t.unchanged([fo, ho, hn, oo, on, va])


# ---------------------------------------------------------------- a whole raster
def view(t, r):
    """full-grid view: (stored(q), place(q)) of a grid cell q"""
    if r.pos == 'no': return (lambda q: z3.BoolVal(True)), (lambda q: q)
    INV = z3.Function('place!%d' % next(FA), z3.IntSort(), z3.IntSort())
    t.require(forall(lambda k: z3.Implies(rng(0, k, r.n), INV(sel(r.P, k)) == k), 1, lambda k: sel(r.P, k)))
    return (lambda q: z3.And(rng(0, INV(q), r.n), sel(r.P, INV(q)) == q)), INV


class Files:
    """ghost list of the files written: names and contents, one row per file"""
    def __init__(self, t, r):
        self.t, self.r = t, r
        self.count = t.cell(I32, I(0), 'files.count')
        self.names = t.array('files.name', I64, r.lyrs, kind='ghost')
        _, self.data = t.array2d('files.data', ty_of(r.T), r.lyrs, r.rows * r.cols, kind='ghost')

    def apply(self, E, st, a, inst):
        """WriteSingleGeotiff / WriteSingleAsc, proved above for one band"""
        r = self.r
        fn, hd, vals = a[0], a[1], a[-1]
        st0 = st
        E.oblige(st, eqv(Ptr(r.oid, 0, r.L['headers_']), hd) if False else z3.And(hd.obj == r.oid, hd.idx == 0, hd.off == r.L['headers_']), 'pre-write: the header of the raster', inst)
        if len(a) == 4: E.oblige(st, z3.And(a[2].obj == r.oid, a[2].off == r.L['options_']), 'pre-write: the options of the raster', inst)
        out = []
        for s, x in stl2.sget(E, st, fn):
            for s2, oid in E.resolve(s, vals, inst):
                if oid == 0 or not s2.mem[oid].alive: E.oblige(s2, z3.BoolVal(False), 'pre-write: an array of values', inst); continue
                E.oblige(s2, z3.And(E.norm(s2, vals, oid)[0] == 0, r.rows * r.cols <= E.obj_len(s2, oid)), 'pre-write: a value for every cell', inst)
                bad = s2.clone(); bad.ghost['failed'] = True; out.append((bad, z3.BoolVal(False)))
                c = s2.mem[self.count].cells[0][1]
                s2.w(self.count).cells[0] = (I32, c + 1); E.mark_write(self.count, 0)
                n = s2.mem[self.names].arrs[0]; s2.w(self.names).arrs[0] = (n[0], z3.Store(n[1], c, x)); E.mark_write(self.names, 0)
                d = s2.mem[self.data].arrs[0]; s2.w(self.data).arrs[0] = (d[0], z3.Store(d[1], c, s2.mem[oid].arrs[0][1])); E.mark_write(self.data, 0)
                out.append((s2, z3.BoolVal(True)))
        return out

    def n(self, s): return s.mem[self.count].cells[0][1]
    def name(self, s, k): return sel(s.mem[self.names].arrs[0][1], k)
    def at(self, s, k, q): return sel(sel(s.mem[self.data].arrs[0][1], k), q)


def out_inv(t, r, fl, stored, place, nameof):
    full = r.rows * r.cols
    V = lambda q, l: r.val0(place(q), l)

    def inv(c):
        fi = c.frame_ints(); il = c.int_locs()
        ghost = any(o == fl.data for o, off, ty in c.arrays())
        if ghost:
            for nm, g in il:
                if 'files' in nm: continue
                yield 'one file per layer %s' % nm, lambda s, g=g: fl.n(s) == g(s)
            yield 'file names', lambda s: forall(lambda l: z3.Implies(rng(0, l, fl.n(s)), fl.name(s, l) == nameof(l)))
            yield 'file contents', lambda s: forall(lambda l, q: z3.Implies(z3.And(rng(0, l, fl.n(s)), rng(0, q, full), stored(q)), fl.at(s, l, q) == V(q, l)), 2)
            yield 'file no-data', lambda s: forall(lambda l, q: z3.Implies(z3.And(rng(0, l, fl.n(s)), rng(0, q, full), z3.Not(stored(q))), fl.at(s, l, q) == r.nd), 2)
            yield 'files<=layers', lambda s: z3.And(fl.n(s) >= 0, fl.n(s) <= r.lyrs)
        for o, off, ty in c.arrays():
            if off != 0 or o in (fl.data, fl.names) or t.E.info[o].kind not in ('new[]', 'heap'): continue
            cur = lambda s, q, o=o: sel(s.mem[o].arrs[0][1], q)
            yield 'unstored %d' % o, lambda s, cur=cur: forall(lambda q: z3.Implies(z3.And(rng(0, q, full), z3.Not(stored(q))), cur(s, q) == r.nd))
            for nm, g in il:
                for n2, ly in (fi if r.two else [('', lambda s: I(0))]):
                    yield 'rows copied %d %s %s' % (o, nm, n2), lambda s, cur=cur, g=g, ly=ly: forall(lambda q: z3.Implies(z3.And(rng(0, q, full), stored(q), place(q) < g(s) * r.cols), cur(s, q) == V(q, ly(s))))
                    for n3, h in fi:
                        if n3 in (nm, n2): continue
                        yield 'cells of a row copied %d %s %s %s' % (o, nm, n2, n3), lambda s, cur=cur, g=g, ly=ly, h=h: forall(lambda q: z3.Implies(z3.And(rng(0, q, full), stored(q), place(q) < h(s) * r.cols + g(s)), cur(s, q) == V(q, ly(s))))
                    yield 'copied %d %s %s' % (o, nm, n2), lambda s, cur=cur, g=g, ly=ly: forall(lambda q: z3.Implies(z3.And(rng(0, q, full), stored(q), place(q) < g(s)), cur(s, q) == V(q, ly(s))))
    t.inv(inv)


for T in ('float', 'int'):
    for two in (False, True):
        for pos in ('no', 'yes'):
            @task('C17', 'OutputFileByGdal %s %s %s' % (T, '2D' if two else '1D', 'positions' if pos == 'yes' else 'full grid'), TUR)
            def _(t, T=T, two=two, pos=pos):
                array_specs(t.E, t.mod)
                r = Raster(t, T, two=two, pos=pos)
                t.require(r.lyrs < MAXN)
                fo, fn = sobj(t, 'filename')
                stored, place = view(t, r)
                fl = Files(t, r)
                for nm in list(t.mod.fn_text):
                    d = t.mod.dem(nm)
                    if d.startswith('bool WriteSingleGeotiff<%s>(' % T): t.E.specs[d] = fl
                ab = stl2.ufn('str_GetAbsolutePath_stringconst', 1)(fn)
                app = lambda f, k: stl2.ufn('str_AppendCoreFileName_stringconstintchar', 3)(f, k, ord('_'))
                nameof = (lambda l: app(ab, l + 1)) if two else (lambda l: ab)
                out_inv(t, r, fl, stored, place, nameof)
                if two: t.E.peel = lambda s: not any(s.mem[q].alive for q in s.ghost.get('allocs', ()))
                t.call(r.method('OutputFileByGdal(string const&)'), r.ptr(), Ptr(fo))
                full = r.rows * r.cols
                for s in t.rets:
                    if t.E.feasible(s, s.ret):
                        imp = lambda f: z3.Implies(s.ret, f)
                        t.ensure(s, imp(fl.n(s) == r.lyrs), 'one file for each layer')
                        t.ensure(s, imp(forall(lambda l: z3.Implies(rng(0, l, r.lyrs), fl.name(s, l) == nameof(l)))), 'each layer goes to the file of its number')
                        t.ensure(s, imp(forall(lambda l, q: z3.Implies(z3.And(rng(0, l, r.lyrs), rng(0, q, full)), fl.at(s, l, q) == z3.If(stored(q), r.val0(place(q), l), r.nd)), 2)), 'each file holds the stored cells of its layer and no-data elsewhere')
                    t.ensure(s, not [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive], 'nothing stays allocated')
                t.unchanged(r.objs() + [fo])


# ---------------------------------------------------------------- C18 reading
BYCODE = {v: k for k, v in CODE.items()}
for T in ('float', 'int'):
    for code in (1, 14, 2, 3, 4, 5, 12, 13, 6, 7, 10):
        ft = BYCODE.get(code, 'complex')

        @task('C18', 'ReadRasterFileByGdal<%s> of %s' % (T, ft), TUR)
        def _(t, T=T, code=code, ft=ft):
            fo, fn = sobj(t, 'filename'); ho, hn = map_arg(t, 'string', 'double', 'header'); so, _ = sobj(t, 'srs')
            vp = t.cell(PTR, NULL, 'values'); tp = t.cell(I32, None, 'type')
            v0, ty0, srs0 = t.get(t.st, vp), t.get(t.st, tp), t.st.mem[so].cells[0][1].a
            nx, ny, nb = t.int('nx'), t.int('ny'), t.int('bands')
            t.require(z3.And(nx >= 1, ny >= 1, nx * ny <= MAXN, nb >= 0))
            et, uns = gdal.GDT.get(code, (DOUBLE, False))
            src = t.array('file', et, nx * ny, kind='ghost'); F = t.content(src)
            isint = et.k == 'int'
            rd = (lambda x: z3.If(x < 0, x + (1 << et.bits), x)) if uns else (lambda x: x)
            full = nx * ny
            nd = t.real('nodata'); hasnd = t.int('has_nodata'); t.require(z3.And(hasnd >= 0, hasnd <= 1))
            geo = [t.real('geo%d' % k) for k in range(6)]; srs = z3.Int('file.srs')
            cmin, cmax = t.real('min'), t.real('max'); anyv = z3.Bool('any_valid')
            if isint:
                lo, hi = -(1 << (et.bits - 1)), (1 << (et.bits - 1)) - 1
                t.require(forall(lambda q: z3.And(sel(F, q) >= lo, sel(F, q) <= hi), 1, lambda q: sel(F, q)))
            if code == 1:
                valid = lambda q: z3.Or(hasnd == 0, R(rd(sel(F, q))) != nd)
                qm = t.int('least')
                t.require(z3.Implies(anyv, z3.And(rng(0, qm, full), valid(qm), R(rd(sel(F, qm))) == cmin)))
                t.require(forall(lambda q: z3.Implies(z3.And(rng(0, q, full), valid(q)), z3.And(anyv, cmin <= R(rd(sel(F, q))), R(rd(sel(F, q))) <= cmax)), 1, lambda q: sel(F, q)))
            fits = lambda x: z3.BoolVal(True)
            if T == 'int':
                # the caller asks for integers: every value of the file is one
                t.require(forall(lambda q: z3.And(R(rd(sel(F, q))) >= -MAXN - 1, R(rd(sel(F, q))) < MAXN + 1), 1, lambda q: sel(F, q)))
            def want(q):
                x = rd(sel(F, q))
                if T == 'int': return tr(x)
                return t.E.fround(z3.ToReal(x), FLOAT) if isint else (conv(t.E, t.st, x, 'double', 'float') if et.k == 'double' else x)
            t.E.gdal_file = dict(nx=nx, ny=ny, nb=nb, type=I(code), content=F, nodata=nd, hasnd=hasnd, geo=geo, srs=srs, cmin=cmin, cmax=cmax, anyvalid=anyv)
            s0 = t.st.clone()

            def inv(c):
                for o, off, ty in c.arrays():
                    if off != 0 or ty.k not in ('int', 'float', 'double'): continue
                    for nm, g in c.int_locs():
                        if ty.k == ty_of(T).k and getattr(ty, 'bits', 0) == getattr(ty_of(T), 'bits', 0):
                            yield 'read< %s' % nm, lambda s, o=o, g=g: forall(lambda q: z3.Implies(rng(0, q, g(s)), sel(s.mem[o].arrs[0][1], q) == want(q)))
                        if ty.k == 'int' and isint and ty.bits == et.bits:
                            yield 'raw< %s' % nm, lambda s, o=o, g=g: forall(lambda q: z3.Implies(rng(0, q, g(s)), sel(s.mem[o].arrs[0][1], q) == sel(F, q)))
            t.inv(inv)
            t.call('bool ReadRasterFileByGdal<%s>(string const&, STRDBL_MAP&, %s*&, RasterDataType&, string&)' % (T, T), Ptr(fo), Ptr(ho), Ptr(vp), Ptr(tp), Ptr(so))
            for s in t.rets:
                op = events(s, 'open'); io = events(s, 'io')
                live = [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive]
                p = t.get(s, vp)
                failed = not (op and op[-1][-1]) or any(not e[3] for e in io) or not io
                t.ensure(s, len(op) == 1 and op[0][1] == fn, 'the named file is opened')
                t.ensure(s, len(events(s, 'close')) == len([e for e in op if e[-1]]), 'the file is closed again')
                if failed or code == 10:
                    t.ensure(s, z3.Not(s.ret), 'what cannot be read is refused')
                    t.ensure(s, not live, 'nothing stays allocated')
                    t.ensure(s, eqv(p, v0), 'no values are handed out')
                    continue
                t.ensure(s, s.ret, 'what can be read is read')
                po = ival(simp(p.obj))
                t.ensure(s, po in live and len(live) == 1, 'the values are the only new array')
                if po not in live: continue
                t.ensure(s, z3.And(p.idx == 0, t.E.obj_len(s, po) == full), 'one value per cell')
                t.ensure(s, forall(lambda q: z3.Implies(rng(0, q, full), sel(s.mem[po].arrs[0][1], q) == want(q))), 'every value is that of its cell')
                ity = t.get(s, tp)
                t.ensure(s, (ity == RDT.index(ft)) if code != 1 else z3.Or(ity == RDT.index('UInt8'), z3.And(ity == RDT.index('Int8'), forall(lambda q: z3.Implies(rng(0, q, full), rd(sel(F, q)) <= 127)))), 'the type of the file')
                t.ensure(s, s.mem[so].cells[0][1].a == srs, 'the coordinate system of the file')
                fl = {k: z3.RealVal(v) for k, v in DEF.items()}
                dflt = table(ity, dict(fl, Float=FL(''), Double=FL('')), NOD)
                hw = dict(NCOLS=z3.ToReal(nx), NROWS=z3.ToReal(ny), NODATA=z3.If(hasnd != 0, nd, dflt), CELLSIZE=geo[1], XLL=geo[0] + geo[1] / 2, YLL=geo[3] + (z3.ToReal(ny) - z3.RealVal('1/2')) * geo[5], LAYERS=z3.RealVal(1), CELLSNUM=z3.ToReal(full))
                for k, v in hw.items(): t.ensure(s, z3.And(has(t, s, hn, lit(H[k])), mval(t, s, hn, lit(H[k])) == v), 'header entry %s' % k)
                t.ensure(s, key_all(lambda k: z3.Implies(z3.Not(one_of(k, [H[x] for x in hw])), same_entry(t, s, hn, s0, hn, k))), 'other header entries are unchanged')
            t.unchanged([fo])
