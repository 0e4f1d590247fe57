"""C16 writing a raster as an ASC grid; choosing the format by the suffix"""
from .maps import *
from .gdalio import SpecConst, view, R

from llvc import asc
from llvc.asc import AscLog, ABS, absof

KEYS = ('NCOLS', 'NROWS', 'XLL', 'YLL', 'CELLSIZE', 'NODATA')
fs = lambda d, nm: d.startswith(nm + '(') or d.startswith('bool ' + nm + '(')


class SpecDelete:
    def __init__(self, log): self.log = log

    def apply(self, E, st, a, inst):
        out = []
        for s, x in stl2.sget(E, st, a[0]):
            self.log.deleted(E, s, x)
            r = None if inst.ty.k == 'void' else z3.Bool(E.nm('fs')) if inst.ty.bits == 1 else E.fresh_int(s, 'fs', inst.ty.bits)
            out.append((s, r))
        return out


class SpecHeader:
    """WriteAscHeaders: begins the file with the header of the raster, or fails"""
    def __init__(self, log, pre): self.log, self.pre = log, pre

    def apply(self, E, st, a, inst):
        E.oblige(st, self.pre(st, a[1]), 'pre-WriteAscHeaders: the header of the raster', inst)
        out = []
        for s, x in stl2.sget(E, st, a[0]):
            out.append((s.clone(), z3.BoolVal(False)))
            self.log.begin(E, s, absof(s, x), 0, 0)
            out.append((s, z3.BoolVal(True)))
        return out


def put_spec(t, sig, spec):
    n = 0
    for nm in t.mod.names() if hasattr(t.mod, 'names') else list(t.mod.fn_text):
        d = t.mod.dem(nm)
        if fs(d, sig): t.E.specs[d] = spec; n += 1
    return n


def log_facts(log, c):
    """ghost cells that a loop keeps"""
    e = c.entry
    for k in ('who', 'fresh', 'prec', 'sep', 'recs', 'lines'):
        if not hasattr(e, 'mem'): continue
        v = log.g(e, k)
        yield 'log %s kept' % k, lambda s, k=k, v=v: log.g(s, k) == v
    yield 'log separated', lambda s: log.g(s, 'sep') == 1
    yield 'log precision', lambda s: log.g(s, 'prec') == 6


@task('C16', 'WriteAscHeaders', TUR)
def _(t):
    fo, fn = sobj(t, 'filename'); ho, hn = map_arg(t, 'string', 'double', 'header')
    rows, cols = t.int('rows'), t.int('cols'); t.require(z3.And(rows >= 0, cols >= 0))
    v0 = t.st.mem[hn].arrs[32][1]
    for k, v in (('NROWS', rows), ('NCOLS', cols)): v0 = z3.Store(v0, lit(H[k]), z3.ToReal(v))
    t.st.w(hn).arrs[32] = (DOUBLE, v0)
    for k in KEYS: t.require(has(t, t.st, hn, lit(H[k])))
    hv = {k: mval(t, t.st, hn, lit(H[k])) for k in KEYS}
    log = AscLog(t); t.require(ABS(ABS(fn)) == ABS(fn))
    t.E.specs['DeleteExistedFile(string const&)'] = SpecDelete(log)
    t.call('WriteAscHeaders(string const&, STRDBL_MAP const&)', Ptr(fo), Ptr(ho))
    yes = 0
    for s in t.rets:
        L = lambda a, k: log.at(s, a, 0, I(k))
        t.ensure(s, log.g(s, 'who') == 0, 'the file is closed')
        if t.E.feasible(s, s.ret):
            yes += 1
            imp = lambda f: z3.Implies(s.ret, f)
            t.ensure(s, imp(z3.And(log.g(s, 'recs') == 1, sel(s.mem[log.path].arrs[0][1], 0) == ABS(fn))), 'the named file is begun anew')
            t.ensure(s, imp(z3.And(log.g(s, 'n') == 0, log.g(s, 'lines') == 0, log.g(s, 'sep') == 1)), 'six lines of a key and a value')
            for i, k in enumerate(KEYS):
                t.ensure(s, imp(z3.And(L(log.word, -12 + 2 * i) == lit(H[k]), L(log.word, -11 + 2 * i) == -1, L(log.val, -11 + 2 * i) == hv[k], log.at(s, log.eol, 0, I(-6 + i)) == -10 + 2 * i)), 'line %d states %s' % (i + 1, k))
                if k in ('XLL', 'YLL', 'CELLSIZE'): t.ensure(s, imp(L(log.prc, -11 + 2 * i) >= 17), '%s in all its digits' % k)
                if k == 'NODATA': t.ensure(s, imp(L(log.prc, -11 + 2 * i) == 6), 'no-data in the digits of the cells')
        if t.E.feasible(s, z3.Not(s.ret)): t.ensure(s, z3.Implies(z3.Not(s.ret), log.g(s, 'recs') == 0), 'refused only if the file cannot be opened')
    t.ensure(t.rets[0], yes > 0, 'a file that opens is written')
    t.unchanged([fo, ho, hn])


def row_ends(log, rows, cols, s, f, upto): return forall(lambda i: z3.Implies(rng(0, i, upto), log.at(s, log.eol, f, i) == (i + 1) * cols), 1, lambda i: log.at(s, log.eol, f, i))


def token(log, T, s, f, q, V): return z3.And(log.at(s, log.word, f, q) == -1, log.at(s, log.val, f, q) == V(q, f), z3.BoolVal(True) if T == 'int' else log.at(s, log.prc, f, q) == 6)


def asc_inv(t, log, T, rows, cols, V, f=None):
    """tokens written so far: n = row * cols + col, token q holds V(q, layer)"""
    def inv(c):
        if not any(o == log.val for o, off, ty in c.arrays()): return
        for x in log_facts(log, c): yield x
        e = c.entry
        cur = lambda s: log.g(s, 'recs') - 1
        il = [x for x in c.int_locs() if 'asc.' not in x[0]]
        fixed = [simp(x) for x in (rows, cols)]
        fi = [x for x in c.frame_ints() if not any(simp(x[1](c.entry)).eq(y) for y in fixed)]
        yield 'tokens', lambda s: forall(lambda q: z3.Implies(rng(0, q, log.g(s, 'n')), token(log, T, s, cur(s), q, V)), 1)
        yield 'line ends', lambda s: forall(lambda i: z3.Implies(rng(0, i, log.g(s, 'lines')), log.at(s, log.eol, cur(s), i) == (i + 1) * cols), 1)
        for nm, g in il:
            if 'asc.' in nm: continue
            yield 'lines = %s' % nm, lambda s, g=g: log.g(s, 'lines') == g(s)
            yield 'n = %s*cols' % nm, lambda s, g=g: log.g(s, 'n') == g(s) * cols
            yield '%s in grid' % nm, lambda s, g=g: z3.And(g(s) >= 0, g(s) <= cols)
            for n2, h in fi:
                if n2 == nm or 'asc.' in n2: continue
                yield 'n = %s*cols+%s' % (n2, nm), lambda s, g=g, h=h: log.g(s, 'n') == h(s) * cols + g(s)
    t.inv(inv)


for T in ('float', 'int'):
    @task('C16', 'WriteSingleAsc<%s>' % T, TUR)
    def _(t, T=T):
        fo, fn = sobj(t, 'filename'); ho, hn = map_arg(t, 'string', 'double', 'header')
        rows, cols = t.int('rows'), t.int('cols')
        t.require(z3.And(rows >= 1, cols >= 1, rows * cols <= MAXN))
        v0 = t.st.mem[hn].arrs[32][1]
        for k, v in (('NROWS', rows), ('NCOLS', cols)): v0 = z3.Store(v0, lit(H[k]), z3.ToReal(v))
        t.st.w(hn).arrs[32] = (DOUBLE, v0)
        for k in KEYS: t.require(has(t, t.st, hn, lit(H[k])))
        va = t.array('values', ty_of(T), rows * cols); A = t.content(va)
        log = AscLog(t); t.require(ABS(ABS(fn)) == ABS(fn))
        put_spec(t, 'WriteAscHeaders', SpecHeader(log, lambda s, p: z3.And(p.obj == ho, p.idx == 0)))
        asc_inv(t, log, T, rows, cols, lambda q, f: R(sel(A, q)))
        t.call('bool WriteSingleAsc<%s>(string const&, STRDBL_MAP const&, %s*)' % (T, T), Ptr(fo), Ptr(ho), Ptr(va))
        yes = 0
        for s in t.rets:
            t.ensure(s, log.g(s, 'who') == 0, 'the file is closed')
            if not t.E.feasible(s, s.ret): continue
            yes += 1
            imp = lambda f: z3.Implies(s.ret, f)
            t.ensure(s, imp(z3.And(log.g(s, 'recs') == 1, sel(s.mem[log.path].arrs[0][1], 0) == ABS(fn))), 'the named file is written')
            t.ensure(s, imp(log.g(s, 'n') == rows * cols), 'one value for each cell')
            t.ensure(s, imp(forall(lambda q: z3.Implies(rng(0, q, rows * cols), z3.And(log.at(s, log.word, I(0), q) == -1, log.at(s, log.val, I(0), q) == R(sel(A, q)))))), 'each value is that of its cell, from the top row on')
            if T != 'int': t.ensure(s, imp(forall(lambda q: z3.Implies(rng(0, q, rows * cols), log.at(s, log.prc, I(0), q) == 6))), 'in six digits')
            t.ensure(s, imp(forall(lambda i: z3.Implies(rng(0, i, rows), log.at(s, log.eol, I(0), i) == (i + 1) * cols))), 'one line for each row')
        t.ensure(t.rets[0], yes > 0, 'a file that opens is written')
        t.unchanged([fo, ho, hn, va])


for T in ('float', 'int'):
    for two in (False, True):
        for pos in ('no', 'yes'):
            @task('C16', 'OutputAscFile %s %s %s' % (T, '2D' if two else '1D', 'positions' if pos == 'yes' else 'full grid'), TUR)
            def _(t, T=T, two=two, pos=pos):
                r = Raster(t, T, two=two, pos=pos)
                t.require(r.lyrs < MAXN)
                fo, fn = sobj(t, 'filename'); t.require(ABS(ABS(fn)) == ABS(fn))
                stored, place = view(t, r)
                log = AscLog(t)
                put_spec(t, 'WriteAscHeaders', SpecHeader(log, lambda s, p: z3.And(p.obj == r.oid, p.idx == 0, p.off == r.L['headers_'])))
                rows, cols, full = r.rows, r.cols, r.rows * r.cols
                app = stl2.ufn('str_AppendCoreFileName_stringconststringconstchar', 3); it = stl2.ufn('str_itoa_int', 1)
                nameof = (lambda l: ABS(app(ABS(fn), it(l), ord('_')))) if two else (lambda l: ABS(fn))
                V = lambda q, l: z3.If(stored(q), R(r.val0(place(q), l)), R(r.nd))
                t.name_of = nameof
                asc_inv(t, log, T, rows, cols, V)
                if two: layer_inv(t, log, T, r, V, nameof)
                if pos == 'yes': cell_inv(t, log, r)
                t.call(r.method('OutputAscFile(string const&)'), r.ptr(), Ptr(fo))
                yes = 0
                for s in t.rets:
                    t.ensure(s, log.g(s, 'who') == 0, 'the file is closed')
                    if not t.E.feasible(s, s.ret): continue
                    yes += 1
                    imp = lambda f: z3.Implies(s.ret, f)
                    ly = lambda l: rng(0, l, r.lyrs)
                    t.ensure(s, imp(log.g(s, 'recs') == r.lyrs), 'one file for each layer')
                    t.ensure(s, imp(forall(lambda l: z3.Implies(ly(l), sel(s.mem[log.path].arrs[0][1], l) == nameof(l)))), 'each layer goes to the file of its number')
                    t.ensure(s, imp(forall(lambda l, q: z3.Implies(z3.And(ly(l), rng(0, q, full)), z3.And(log.at(s, log.word, l, q) == -1, log.at(s, log.val, l, q) == V(q, l))), 2)), 'each value is that of its cell and layer, or no-data')
                    if T != 'int': t.ensure(s, imp(forall(lambda l, q: z3.Implies(z3.And(ly(l), rng(0, q, full)), log.at(s, log.prc, l, q) == 6), 2)), 'in six digits')
                    t.ensure(s, imp(forall(lambda l, i: z3.Implies(z3.And(ly(l), rng(0, i, rows)), log.at(s, log.eol, l, i) == (i + 1) * cols), 2)), 'one line for each row')
                t.ensure(t.rets[0], yes > 0, 'files that open are written')
                t.unchanged(r.objs() + [fo])


def layer_inv(t, log, T, r, V, nameof):
    full = r.rows * r.cols
    def inv(c):
        if not any(o == log.val for o, off, ty in c.arrays()): return
        done = lambda s, l: z3.And(0 <= l, l < log.g(s, 'recs'))
        for nm, g in c.int_locs():
            if 'asc.' not in nm: yield 'one file per layer %s' % nm, lambda s, g=g: log.g(s, 'recs') == g(s)
        for nm, g in c.frame_ints():
            if 'asc.' not in nm: yield 'one more file than %s' % nm, lambda s, g=g: log.g(s, 'recs') == g(s) + 1
        yield 'files<=layers', lambda s: z3.And(log.g(s, 'recs') >= 0, log.g(s, 'recs') <= r.lyrs)
        yield 'names', lambda s: forall(lambda l: z3.Implies(done(s, l), sel(s.mem[log.path].arrs[0][1], l) == nameof(l)))
        for k, up in (('', lambda s: log.g(s, 'recs')), (' before', lambda s: log.g(s, 'recs') - 1)):
            dn = lambda s, l, up=up: z3.And(0 <= l, l < up(s))
            yield 'layers%s' % k, lambda s, dn=dn: forall(lambda l, q: z3.Implies(z3.And(dn(s, l), rng(0, q, full)), token(log, T, s, l, q, V)), 2)
            yield 'rows%s' % k, lambda s, dn=dn: forall(lambda l, i: z3.Implies(z3.And(dn(s, l), rng(0, i, r.rows)), log.at(s, log.eol, l, i) == (i + 1) * r.cols), 2)
    t.inv(inv)


def cell_inv(t, log, r):
    """index of the next stored cell while the grid is walked"""
    def inv(c):
        if not any(o == log.val for o, off, ty in c.arrays()): return
        for nm, g in c.int_locs():
            if 'asc.' in nm: continue
            yield 'next %s' % nm, lambda s, g=g: z3.And(g(s) >= 0, g(s) <= r.n)
            yield 'passed %s' % nm, lambda s, g=g: forall(lambda k: z3.Implies(rng(0, k, g(s)), sel(r.P, k) < log.g(s, 'n')), 1, lambda k: sel(r.P, k))
            yield 'ahead %s' % nm, lambda s, g=g: forall(lambda k: z3.Implies(z3.And(k >= g(s), k < r.n), sel(r.P, k) >= log.g(s, 'n')), 1, lambda k: sel(r.P, k))
    t.inv(inv)


# ---------------------------------------------------------------- the format is chosen by the suffix
class SpecWriter:
    """a writer: recorded with its arguments, succeeds or not"""
    def __init__(self, kind, name=1): self.kind, self.name = kind, name

    def apply(self, E, st, a, inst):
        out = []
        for s, x in stl2.sget(E, st, a[self.name]):
            r = z3.Bool(E.nm('written'))
            s.ghost['writers'] = s.ghost.get('writers', ()) + ((self.kind, x, tuple(a), r),)
            out.append((s, r))
        return out


SUF = stl2.ufn('str_GetSuffix_stringconst', 1)
DIR = stl2.ufn('str_GetPathFromFullName_stringconst', 1)
REPL = stl2.ufn('str_ReplaceSuffix_stringconststringconst', 2)


def chosen(t, s, fn, args):
    """(condition, format, file name) of the three cases"""
    up = stl2.UPPER(SUF(ABS(fn)))
    asc_, tif = up == lit('ASC'), up == lit('TIF')
    return [(asc_, 'asc', ABS(fn)), (z3.And(z3.Not(asc_), tif), 'tif', ABS(fn)), (z3.And(z3.Not(asc_), z3.Not(tif)), 'tif', REPL(ABS(fn), lit('tif')))]


def check_choice(t, s, fn, same_args):
    w = s.ghost.get('writers', ())
    t.ensure(s, len(w) <= 1, 'one format is written')
    for cond, kind, name in chosen(t, s, fn, same_args):
        if not t.E.feasible(s, cond): continue
        t.ensure(s, z3.Implies(cond, z3.And(len(w) == 1 and w[0][0] == kind, w[0][1] == name if w else False)), 'suffix chooses %s' % kind)
    if len(w) == 1:
        t.ensure(s, s.ret == w[0][3], 'the result is that of the writer')
        t.ensure(s, same_args(w[0][2]), 'header and values are handed over')


for T in ('float', 'int'):
    @task('C16', 'WriteRasterToFile<%s>' % T, TUR)
    def _(t, T=T):
        fo, fn = sobj(t, 'filename'); ho, hn = map_arg(t, 'string', 'double', 'header'); oo, on = map_arg(t, 'string', 'string', 'opts')
        t.require(z3.And(ABS(ABS(fn)) == ABS(fn), *[stl2.UPPER(stl2.UPPER(x)) == stl2.UPPER(x) for x in (SUF(ABS(fn)),)]))
        va = t.array('values', ty_of(T), t.int('cells'))
        put_spec(t, 'bool WriteSingleAsc<%s>' % T, SpecWriter('asc', 0)); put_spec(t, 'bool WriteSingleGeotiff<%s>' % T, SpecWriter('tif', 0))
        t.call('bool WriteRasterToFile<%s>(string const&, STRDBL_MAP const&, STRING_MAP const&, %s*)' % (T, T), Ptr(fo), Ptr(ho), Ptr(oo), Ptr(va))
        for s in t.rets:
            none = DIR(fn) == lit('')
            if t.E.feasible(s, none): t.ensure(s, z3.Implies(none, z3.And(z3.Not(s.ret), z3.BoolVal(not s.ghost.get('writers', ())))), 'a name without a folder is refused')
            if t.E.feasible(s, z3.Not(none)):
                s2 = s.clone(); s2.assume(z3.Not(none)); s2.ret = s.ret
                check_choice(t, s2, fn, lambda a: z3.And(eqv(a[1], Ptr(ho)), eqv(a[-1], Ptr(va)), eqv(a[2], Ptr(oo)) if len(a) == 4 else True))
        t.unchanged([fo, ho, hn, oo, on, va])

    for two in (False, True):
        @task('C16', 'OutputToFile %s %s' % (T, '2D' if two else '1D'), TUR)
        def _(t, T=T, two=two):
            r = Raster(t, T, two=two, pos='no')
            fo, fn = sobj(t, 'filename'); origin = z3.Bool('out_origin')
            t.require(z3.And(ABS(ABS(fn)) == ABS(fn), stl2.UPPER(stl2.UPPER(SUF(ABS(fn)))) == stl2.UPPER(SUF(ABS(fn)))))
            put_spec(t, r.method('OutputAscFile'), SpecWriter('asc')); put_spec(t, r.method('OutputFileByGdal'), SpecWriter('tif'))
            put_spec(t, r.method('OutputSubsetToFile'), SpecWriter('subset', 3))
            t.call(r.method('OutputToFile(string const&, bool)'), r.ptr(), Ptr(fo), origin)
            for s in t.rets:
                none = DIR(fn) == lit(''); w = s.ghost.get('writers', ())
                if t.E.feasible(s, none): t.ensure(s, z3.Implies(none, z3.And(z3.Not(s.ret), z3.BoolVal(not w))), 'a name without a folder is refused')
                s2 = s.clone(); s2.assume(z3.And(z3.Not(none), origin)); s2.ret = s.ret
                if t.E.feasible(s2, z3.BoolVal(True)): check_choice(t, s2, fn, lambda a: eqv(a[0], r.ptr()))
                s3 = s.clone(); s3.assume(z3.And(z3.Not(none), z3.Not(origin))); s3.ret = s.ret
                if t.E.feasible(s3, z3.BoolVal(True)):
                    t.ensure(s3, len(w) == 1 and w[0][0] == 'subset', 'sub-regions are written instead on demand')
                    if len(w) == 1: t.ensure(s3, z3.And(s.ret == w[0][3], z3.Or(w[0][1] == fn, w[0][1] == ABS(fn))), 'the result is that of the writer')
            t.unchanged(r.objs() + [fo])
