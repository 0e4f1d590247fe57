from llvc.api import *
from .specs import *

TU = 'array.cpp'
# ------------------------------------------------------------------ C01 initialisers
def alloc_of(t, s):
    return [o for o in s.ghost.get('allocs', ()) if s.mem[o].alive]


def init1d(T, U, ptr):
    @task('C01', 'Initialize1DArray<%s,%s>(%s)' % (T, U, 'array' if ptr else 'value'), TU)
    def _(t):
        E = t.E; E.alloc_may_fail = True
        row = t.int('row')
        d0 = Ptr(z3.Int('data0.obj'), 0)
        old = t.array('old', ty_of(T), t.int('oldn'))
        t.require(z3.Or(d0.obj == 0, d0.obj == old))
        cellp = t.cell(PTR, d0, 'data')
        if ptr:
            src = t.array('init_data', ty_of(U), row)
            A = t.content(src)
            t.require(row >= 1)
            isnull = z3.Bool('init_null')
            arg = Ptr(z3.If(isnull, I(0), I(src)))
            val = lambda k: conv(E, t.st, sel(A, k), U, T)
            if ty_of(U).k != 'int' and ty_of(T).k == 'int':
                t.require(forall(lambda k: z3.Implies(rng(0, k, row), trunc_ok(sel(A, k), U, T)), 1, lambda k: sel(A, k)))
            if ty_of(U).k == 'int': E.int_arrays = True
        else:
            iv = t.val(ty_of(U), 'init'); arg = iv; isnull = z3.BoolVal(False)
            t.require(trunc_ok(iv, U, T))
            val = lambda k: conv(E, t.st, iv, U, T)

        def inv(c):
            for oid, off, ty in c.arrays():
                for N, i in c.int_locs():
                    yield 'filled prefix %s' % N, lambda s, oid=oid, off=off, i=i: forall(lambda k: z3.Implies(rng(0, k, i(s)), sel(s.mem[oid].arrs[off][1], k) == val(k)))
                    yield 'filled suffix %s' % N, lambda s, oid=oid, off=off, i=i: forall(lambda k: z3.Implies(z3.And(i(s) < k, k < row), sel(s.mem[oid].arrs[off][1], k) == val(k)))
        t.inv(inv)
        t.call('bool Initialize1DArray<%s, %s>(int, %s*&, %s%s)' % (T, U, T, U, '*' if ptr else ''), row, Ptr(cellp), arg)
        for s in t.rets:
            p = t.get(s, cellp)
            live = alloc_of(t, s)
            t.ensure(s, z3.Implies(z3.Or(d0.obj != 0, row <= 0, isnull), z3.Not(s.ret)), 'failure reported')
            t.ensure(s, z3.Implies(z3.Not(s.ret), eqv(p, d0) if True else None), 'pointer untouched on failure')
            t.ensure(s, z3.Implies(z3.Not(s.ret), z3.BoolVal(not live)), 'nothing leaked on failure')
            if not live:
                t.ensure(s, z3.Not(s.ret), 'success only with a block'); continue
            t.ensure(s, z3.Implies(s.ret, z3.And(p.obj == live[-1], p.idx == 0, p.off == 0, z3.BoolVal(len(live) == 1))), 'data points at one fresh block')
            E.type_heap(s, live[-1], ty_of(T))
            n = E.obj_len(s, live[-1]); arr = s.mem[live[-1]].arrs[0][1]
            t.ensure(s, z3.Implies(s.ret, n == row), 'block has row elements')
            t.ensure(s, z3.Implies(s.ret, forall(lambda k: z3.Implies(rng(0, k, row), sel(arr, k) == val(k)))), 'every element initialised')
        t.unchanged([old] + ([src] if ptr else []))


def init2d(T, U):
    @task('C01', 'Initialize2DArray<%s,%s>(value)' % (T, U), TU)
    def _(t):
        E = t.E; E.alloc_may_fail = True
        row = t.int('row'); col = t.int('col')
        old = t.array('old', PTR, t.int('oldn'))
        d0 = Ptr(z3.Int('data0.obj'), 0)
        t.require(z3.Or(d0.obj == 0, d0.obj == old))
        t.require(z3.And(row >= 0, col >= 0, row * col <= 0x7fffffff))
        cellp = t.cell(PTR, d0, 'data')
        iv = t.val(ty_of(U), 'init')
        t.require(trunc_ok(iv, U, T))
        v = conv(E, t.st, iv, U, T)

        def inv(c):
            for oid, off, ty in c.arrays():
                for N, i in c.int_locs():
                    if ty.k == 'ptr':
                        pool = [o for o in c.entry.ghost.get('allocs', ()) if o != oid][-1]
                        yield 'rows point into the pool %s' % N, lambda s, oid=oid, off=off, i=i, pool=pool: forall(lambda k: z3.Implies(rng(0, k, i(s)), z3.And(
                            *[sel(a, k) == b for a, b in zip(s.mem[oid].arrs[off][1], (pool, k * col, 0, 0))])))
                    else:
                        yield 'pool filled prefix %s' % N, lambda s, oid=oid, off=off, i=i: forall(lambda k: z3.Implies(rng(0, k, i(s)), sel(s.mem[oid].arrs[off][1], k) == v))
        t.inv(inv)
        t.call('bool Initialize2DArray<%s, %s>(int, int, %s**&, %s)' % (T, U, T, U), row, col, Ptr(cellp), iv)
        for s in t.rets:
            p = t.get(s, cellp); live = alloc_of(t, s)
            t.ensure(s, z3.Implies(d0.obj != 0, z3.Not(s.ret)), 'failure reported')
            t.ensure(s, z3.Implies(z3.Not(s.ret), eqv(p, d0)), 'pointer untouched on failure')
            t.ensure(s, z3.Implies(z3.Not(s.ret), z3.BoolVal(not live)), 'nothing leaked on failure')
            if not live: t.ensure(s, z3.Not(s.ret), 'success only with a block'); continue
            if len(live) != 2: t.ensure(s, z3.Not(s.ret), 'two blocks'); continue
            ro = ival(simp(p.obj))
            if ro is None: raise Unsupported('result pointer')
            pool = [o for o in live if o != ro]
            t.ensure(s, z3.Implies(s.ret, z3.BoolVal(ro in live and len(pool) == 1)), 'row array is fresh')
            if ro not in live: continue
            pool = pool[0]
            ra = s.mem[ro].arrs[0][1]
            t.ensure(s, z3.Implies(s.ret, forall(lambda k: z3.Implies(rng(0, k, row), z3.And(*[sel(a, k) == b for a, b in zip(ra, (pool, k * col, 0, 0))])))), 'row k starts at k*col of one pool')
            t.ensure(s, z3.Implies(s.ret, z3.And(E.obj_len(s, ro) == row, E.obj_len(s, pool) == row * col)), 'block sizes')
            arr = s.mem[pool].arrs[0][1]
            t.ensure(s, z3.Implies(s.ret, forall(lambda k: z3.Implies(rng(0, k, row * col), sel(arr, k) == v))), 'every element initialised')
        t.unchanged([old])


def init2dp(T, U):
    @task('C01', 'Initialize2DArray<%s,%s>(array)' % (T, U), TU)
    def _(t):
        E = t.E
        array_specs(E, t.mod)
        row = t.int('row'); col = t.int('col')
        t.require(z3.And(row >= 1, col >= 1, row * col <= 0x7fffffff))
        old = t.array('old', PTR, t.int('oldn'))
        d0 = Ptr(z3.Int('data0.obj'), 0)
        t.require(z3.Or(d0.obj == 0, d0.obj == old))
        cellp = t.cell(PTR, d0, 'data')
        sr, sc = t.array2d('init_data', ty_of(U), row, col)
        A = t.content(sc)
        if ty_of(U).k != 'int' and ty_of(T).k == 'int':
            t.require(forall(lambda r, k: trunc_ok(sel(sel(A, r), k), U, T), 2, lambda r, k: sel(sel(A, r), k)))
        val = lambda r, k: conv(E, t.st, sel(sel(A, r), k), U, T)

        def inv(c):
            for oid, off, ty in c.arrays():
                for N, i in c.int_locs():
                    yield 'rows filled %s' % N, lambda s, oid=oid, off=off, i=i: forall(lambda r, k: z3.Implies(z3.And(rng(0, r, i(s)), rng(0, k, col)), sel(sel(s.mem[oid].arrs[off][1], r), k) == val(r, k)), 2)
                    for N2, r0 in c.frame_ints():
                        yield 'row %s filled to %s' % (N2, N), lambda s, oid=oid, off=off, i=i, r0=r0: forall(lambda k: z3.Implies(rng(0, k, i(s)), sel(sel(s.mem[oid].arrs[off][1], r0(s)), k) == val(r0(s), k)))
                        yield 'rows before %s' % N2, lambda s, oid=oid, off=off, r0=r0: forall(lambda r, k: z3.Implies(z3.And(rng(0, r, r0(s)), rng(0, k, col)), sel(sel(s.mem[oid].arrs[off][1], r), k) == val(r, k)), 2)
        t.inv(inv)
        t.call('bool Initialize2DArray<%s, %s>(int, int, %s**&, %s**)' % (T, U, T, U), row, col, Ptr(cellp), Ptr(sr))
        for s in t.rets:
            p = t.get(s, cellp); live = alloc_of(t, s)
            t.ensure(s, s.ret == (d0.obj == 0), 'succeeds exactly on a null pointer')
            t.ensure(s, z3.Implies(z3.Not(s.ret), eqv(p, d0)), 'pointer untouched on failure')
            if not live: continue
            ro = ival(simp(p.obj))
            if ro is None: raise Unsupported('result pointer')
            c = [o for o in live if o != ro][0]
            arr = s.mem[c].arrs[0][1]
            t.ensure(s, z3.Implies(s.ret, forall(lambda r, k: z3.Implies(z3.And(rng(0, r, row), rng(0, k, col)), sel(sel(arr, r), k) == val(r, k)), 2)), 'every element copied')
        t.unchanged([sc, old])


PAIRS = [('int', 'int'), ('float', 'float'), ('double', 'float'), ('int', 'float'), ('float', 'int')]
for T, U in PAIRS:
    init1d(T, U, False); init1d(T, U, True); init2d(T, U); init2dp(T, U)


# ------------------------------------------------------------------ C03 max / min / sum
def mm(T, op, word):
    @task('C03', '%sInArray<%s>' % (word, T), TU)
    def _(t):
        n = t.int('n'); a = t.array('a', ty_of(T), n)
        t.require(n >= 1)
        A = t.content(a)

        def inv(c):
            for L, g in c.scalar_locs(ty_of(T)):
                for N, i in c.int_locs():
                    if N == L: continue
                    yield 'bounds prefix %s %s' % (L, N), lambda s, g=g, i=i: forall(lambda k: z3.Implies(rng(0, k, i(s)), op(g(s), sel(A, k))), 1, lambda k: sel(A, k))
                    yield 'bounds suffix %s %s' % (L, N), lambda s, g=g, i=i: forall(lambda k: z3.Implies(z3.And(k > i(s), k < n), op(g(s), sel(A, k))), 1, lambda k: sel(A, k))
                x = z3.Int('x')
                yield 'occurs %s' % L, lambda s, g=g: exists(lambda x: z3.And(rng(0, x, n), sel(A, x) == g(s)), lambda x: sel(A, x))
        t.inv(inv)
        t.call('%s %sInArray<%s>(%s const*, int)' % (T, word, T, T), Ptr(a), n)
        for s in t.rets:
            t.ensure(s, forall(lambda k: z3.Implies(rng(0, k, n), op(s.ret, sel(A, k)))), 'bounds every element')
            x = z3.Int('x')
            t.ensure(s, exists(lambda x: z3.And(rng(0, x, n), sel(A, x) == s.ret), lambda x: sel(A, x)), 'is an element')
        t.unchanged([a])


for T in ('int', 'float', 'double'):
    mm(T, lambda a, b: a >= b, 'Max'); mm(T, lambda a, b: a <= b, 'Min')


# ------------------------------------------------------------------ C02 release, irregular rows
def rel1(T):
    @task('C02', 'Release1DArray<%s>' % T, TU)
    def _(t):
        E = t.E
        o = E.arr_obj(t.st, 'block', ty_of(T), t.int('n'), 'new[]')
        other = E.arr_obj(t.st, 'other', ty_of(T), t.int('m'), 'new[]')
        null = z3.Bool('null')
        c = t.cell(PTR, Ptr(z3.If(null, I(0), I(o))), 'data')
        t.call('void Release1DArray<%s>(%s*&)' % (T, T), Ptr(c))
        for s in t.rets:
            t.ensure(s, t.get(s, c).obj == 0, 'pointer is null afterwards')
            t.ensure(s, z3.Implies(z3.Not(null), z3.BoolVal(not s.mem[o].alive)), 'the block is released')
            t.ensure(s, z3.Implies(null, z3.BoolVal(s.mem[o].alive)), 'null releases nothing')
            t.ensure(s, z3.BoolVal(s.mem[other].alive), 'no other block is released')


def rel2(T):
    @task('C02', 'Release2DArray<%s>' % T, TU)
    def _(t):
        E = t.E
        n = t.int('n'); m = t.int('m')
        t.require(z3.And(n >= 1, m >= 0))
        pool = E.arr_obj(t.st, 'pool', ty_of(T), t.int('len', 64), 'new[]')
        rows = E.arr_obj(t.st, 'rows', PTR, n, 'new[]')
        ra = t.content(rows)
        t.require(z3.And(sel(ra[0], 0) == pool, sel(ra[1], 0) == 0, sel(ra[2], 0) == 0))
        t.require(forall(lambda k: z3.Implies(rng(0, k, n), sel(ra[0], k) == pool)))
        null = z3.Bool('null')
        c = t.cell(PTR, Ptr(z3.If(null, I(0), I(rows))), 'data')
        t.call('void Release2DArray<%s>(%s**&)' % (T, T), Ptr(c))
        for s in t.rets:
            t.ensure(s, t.get(s, c).obj == 0, 'pointer is null afterwards')
            for o, w in ((pool, 'data pool'), (rows, 'row pointers')):
                t.ensure(s, z3.Implies(z3.Not(null), z3.BoolVal(not s.mem[o].alive)), 'the %s released' % w)
                t.ensure(s, z3.Implies(null, z3.BoolVal(s.mem[o].alive)), 'null releases nothing')


for T in ('int', 'float', 'double'): rel1(T); rel2(T)


def irregular(T, U):
    @task('C02', 'Initialize2DArray<%s,%s>(packed rows)' % (T, U), TU)
    def _(t):
        E = t.E
        array_specs(E, t.mod)
        L = t.int('len'); src = t.array('init_data', ty_of(T), L); A = t.content(src)
        if T != 'int':
            cnt = z3.Function('cnt', z3.IntSort(), z3.IntSort()); p_ = z3.Int('p_')
            E.side_axioms.append(z3.ForAll([p_], cnt(p_) == conv(E, t.st, sel(A, p_), T, 'int'), patterns=[sel(A, p_)]))
            E.side_axioms.append(z3.ForAll([p_], cnt(p_) == conv(E, t.st, sel(A, p_), T, 'int'), patterns=[cnt(p_)]))
        else: cnt = lambda p: sel(A, p)
        n = z3.Int('nrows')
        S = z3.Function('start', z3.IntSort(), z3.IntSort())
        t.require(z3.And(L >= 1, n >= 1, n <= 0x7fffffff, cnt(I(0)) == n, S(0) == 1))
        if T != 'int': t.require(trunc_ok(sel(A, 0), T, 'int'))
        k = z3.Int('k')
        t.require(z3.ForAll([k], z3.Implies(rng(0, k, n), z3.And(S(k + 1) == S(k) + 1 + cnt(S(k)), cnt(S(k)) >= 0, S(k) >= 1, S(k) < S(k + 1), S(k + 1) <= L, S(k) < L, trunc_ok(sel(A, S(k)), T, 'int'))), patterns=[S(k)]))
        t.require(z3.And(S(n) <= L, S(n) >= 2))
        if T != 'int' and U == 'int': t.require(forall(lambda q: z3.Implies(rng(0, q, L), trunc_ok(sel(A, q), T, U)), 1, lambda q: sel(A, q)))
        d = t.cell(PTR, NULL, 'data'); rc = t.cell(I32, None, 'rows'); mc = t.cell(I32, None, 'max_cols')
        x = z3.Int('x')

        def inv(c):
            ints = c.int_locs()
            for N, i in ints:
                for M_, m in ints:
                    if N == M_: continue
                    yield 'pos %s=start(%s)' % (M_, N), lambda s, i=i, m=m: m(s) == S(i(s))
                    yield 'pos %s=start(%s)-1' % (M_, N), lambda s, i=i, m=m: m(s) == S(i(s)) - 1
                    yield 'maxcol %s %s' % (M_, N), lambda s, i=i, m=m: z3.And(forall(lambda q: z3.Implies(rng(0, q, i(s)), m(s) >= cnt(S(q))), 1, lambda q: S(q)),
                                                                           z3.Or(z3.And(m(s) == -1, i(s) == 0), z3.Exists([x], z3.And(rng(0, x, i(s)), cnt(S(x)) == m(s)))))
                for oid, off, ty in c.arrays():
                    if ty.k == 'int': yield 'cols %s' % N, lambda s, i=i, oid=oid, off=off: forall(lambda q: z3.Implies(rng(0, q, i(s)), sel(s.mem[oid].arrs[off][1], q) == cnt(S(q))))
                    if ty.k == 'ptr':
                        for po in [o for o in c.entry.ghost.get('allocs', ()) if o != oid]:
                            yield 'rows %s %d' % (N, po), lambda s, i=i, oid=oid, off=off, po=po: forall(lambda q: z3.Implies(rng(0, q, i(s)), z3.And(*[sel(a, q) == b for a, b in zip(s.mem[oid].arrs[off][1], (po, S(q) - 1, 0, 0))])))
        t.inv(inv)
        t.call('bool Initialize2DArray<%s, %s>(%s*, int&, int&, %s**&)' % (T, U, T, U), Ptr(src), Ptr(rc), Ptr(mc), Ptr(d))
        for s in t.rets:
            live = alloc_of(t, s); p = t.get(s, d); ro = ival(simp(p.obj))
            if ro == 0:
                t.ensure(s, z3.And(z3.Not(s.ret), z3.BoolVal(not live)), 'null only on failure'); continue
            pool = [o for o in live if o != ro]
            t.ensure(s, z3.And(s.ret, z3.BoolVal(ro in live and len(pool) == 1)), 'row array and one pool, temporaries released')
            if ro not in live or len(pool) != 1: continue
            pool = pool[0]
            t.ensure(s, t.get(s, rc) == n, 'rows is the leading count')
            t.ensure(s, z3.And(forall(lambda q: z3.Implies(rng(0, q, n), t.get(s, mc) >= cnt(S(q))), 1, lambda q: S(q)), z3.Exists([x], z3.And(rng(0, x, n), cnt(S(x)) == t.get(s, mc)))), 'max_cols is the largest row count')
            ra = s.mem[ro].arrs[0][1]
            t.ensure(s, z3.And(E.obj_len(s, ro) == n, E.obj_len(s, pool) == S(n) - 1), 'block sizes')
            t.ensure(s, forall(lambda q: z3.Implies(rng(0, q, n), z3.And(*[sel(a, q) == b for a, b in zip(ra, (pool, S(q) - 1, 0, 0))]))), 'row q starts at its packed position')
            arr = s.mem[pool].arrs[0][1]
            t.ensure(s, forall(lambda q: z3.Implies(rng(0, q, S(n) - 1), sel(arr, q) == conv(E, t.st, sel(A, q + 1), T, U))), 'pool holds the packed data without the leading count')
        t.unchanged([src])


for T, U in (('float', 'float'), ('int', 'int'), ('int', 'float')): irregular(T, U)
