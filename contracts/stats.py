from llvc.api import *
from .specs import *
TU = 'array.cpp'


# Sum
def sums(T, indexed):
    @task('C03', 'Sum<%s>%s' % (T, '(indexed)' if indexed else ''), TU)
    def _(t):
        E = t.E; E.exact_float = True
        n = t.int('n'); L = t.int('len')
        a = t.array('a', ty_of(T), L); A = t.content(a)
        t.require(n >= 0)
        so = z3.IntSort() if T == 'int' else z3.RealSort()
        zero = I(0) if T == 'int' else z3.Q(0, 1)
        if indexed:
            ix = t.array('idx', I32, n); X = t.content(ix)
            t.require(forall(lambda k: z3.Implies(rng(0, k, n), rng(0, sel(X, k), L)), 1, lambda k: sel(X, k)))
            S = fold(t, 'S', zero, lambda f, k: f + sel(A, sel(X, k)), lambda k: sel(X, k), so)
        else:
            t.require(L >= n)
            S = fold(t, 'S', zero, lambda f, k: f + sel(A, k), lambda k: sel(A, k), so)
        if T == 'int':
            t.require(forall(lambda k: z3.Implies(z3.And(0 <= k, k <= n), z3.And(S(k) >= -2**31, S(k) < 2**31)), 1, lambda k: S(k)))
            t.require(forall(lambda k: z3.Implies(z3.And(0 <= k, k <= n), z3.And(S(n) - S(k) >= -2**31, S(n) - S(k) < 2**31)), 1, lambda k: S(k)))

        def inv(c):
            for L_, g in c.scalar_locs(ty_of(T)):
                for N, i in c.int_locs():
                    if N == L_: continue
                    yield 'partial sum %s %s' % (L_, N), lambda s, g=g, i=i: z3.And(i(s) >= 0, i(s) <= n, g(s) == S(i(s)))
                    yield 'suffix sum %s %s' % (L_, N), lambda s, g=g, i=i: z3.And(i(s) >= -1, i(s) < n, g(s) == S(n) - S(i(s) + 1))
        t.inv(inv)
        if indexed:
            c = t.cell(PTR, Ptr(ix), 'idxp')
            t.call('%s Sum<%s>(int, int*&, %s const*)' % (T, T, T), n, Ptr(c), Ptr(a))
        else: t.call('%s Sum<%s>(int, %s const*)' % (T, T, T), n, Ptr(a))
        t.ensure_all(lambda s: s.ret == S(n), 'the sum of the selected elements')
        t.unchanged([a] + ([ix] if indexed else []))


for T in ('int', 'float', 'double'):
    sums(T, False); sums(T, True)



def stats1(T):
    @task('C04', 'BasicStatistics<%s>(1D)' % T, TU, cost=5)
    def _(t):
        E = t.E; E.exact_float = True
        n = t.int('n'); a = t.array('values', ty_of(T), n); A = t.content(a)
        ex = t.val(ty_of(T), 'exclude')
        t.require(n >= 0)
        valid = lambda k: z3.Not(EQ(sel(A, k), ex))
        tr = lambda k: sel(A, k)
        if T == 'double': t.require(forall(lambda k: z3.And(sel(A, k) <= FMAX, sel(A, k) >= -FMAX), 1, tr))
        if T == 'float': t.require(forall(lambda k: z3.And(sel(A, k) <= FMAX, sel(A, k) >= -FMAX), 1, tr))
        C = fold(t, 'cnt', I(0), lambda f, k: z3.If(valid(k), f + 1, f), tr, z3.IntSort())
        S = fold(t, 'sum', z3.RealVal(0), lambda f, k: z3.If(valid(k), f + R(sel(A, k)), f), tr)
        mean = z3.Real('mean')
        Q = fold(t, 'sq', z3.RealVal(0), lambda f, k: z3.If(valid(k), f + (R(sel(A, k)) - mean) * (R(sel(A, k)) - mean), f), tr)
        t.require(z3.Implies(C(n) > 0, mean * z3.ToReal(C(n)) == S(n)))
        x = z3.Int('x')

        def inv(c):
            ints = c.int_locs()
            for N, i in ints:
                for M_, m in ints:
                    if M_ != N:
                        yield 'count %s %s' % (M_, N), lambda s, i=i, m=m: z3.And(m(s) == C(i(s)), i(s) >= 0, m(s) <= i(s), m(s) >= 0)
                for D, g in c.scalar_locs(DOUBLE):
                    yield 'sum %s %s' % (D, N), lambda s, i=i, g=g: g(s) == S(i(s))
                    yield 'squares %s %s' % (D, N), lambda s, i=i, g=g: z3.Implies(C(n) > 0, g(s) == Q(i(s)))
                    yield 'upper %s %s' % (D, N), lambda s, i=i, g=g: forall(lambda k: z3.Implies(z3.And(rng(0, k, i(s)), valid(k)), g(s) >= R(sel(A, k))), 1, tr)
                    yield 'lower %s %s' % (D, N), lambda s, i=i, g=g: forall(lambda k: z3.Implies(z3.And(rng(0, k, i(s)), valid(k)), g(s) <= R(sel(A, k))), 1, tr)
                    yield 'max occurs %s %s' % (D, N), lambda s, i=i, g=g: z3.Or(z3.And(g(s) == -FMAX, C(i(s)) == 0), exists(lambda x: z3.And(rng(0, x, i(s)), valid(x), R(sel(A, x)) == g(s)), tr), g(s) == -FMAX)
                    yield 'max occurs2 %s %s' % (D, N), lambda s, i=i, g=g: z3.Implies(C(i(s)) > 0, exists(lambda x: z3.And(rng(0, x, i(s)), valid(x), R(sel(A, x)) == g(s)), tr))
                    yield 'min occurs2 %s %s' % (D, N), lambda s, i=i, g=g: z3.Implies(C(i(s)) > 0, exists(lambda x: z3.And(rng(0, x, i(s)), valid(x), R(sel(A, x)) == g(s)), tr))
                    yield 'in float range %s' % D, lambda s, g=g: z3.And(g(s) >= -FMAX, g(s) <= FMAX)
                    yield 'none yet max %s %s' % (D, N), lambda s, i=i, g=g: z3.Implies(C(i(s)) == 0, g(s) == -FMAX)
                    yield 'none yet min %s %s' % (D, N), lambda s, i=i, g=g: z3.Implies(C(i(s)) == 0, g(s) == FMAX)
                yield 'count sane %s' % N, lambda s, i=i: z3.And(C(i(s)) >= 0, C(i(s)) <= i(s))
        t.inv(inv)
        out = t.cell(PTR, NULL, 'derived')
        t.call('void BasicStatistics<%s>(%s const*, int, double**, %s)' % (T, T, T), Ptr(a), n, Ptr(out), ex)
        for s in t.rets:
            p = t.get(s, out); o = ival(simp(p.obj))
            live = [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive]
            t.ensure(s, o in live and len(live) == 1, 'one result block')
            if o is None: continue
            st = lambda k: sel(s.mem[o].arrs[0][1], k)
            t.ensure(s, E.obj_len(s, o) == 6, 'six statistics')
            cn = C(n)
            t.ensure(s, st(0) == z3.ToReal(cn), 'count of valid cells')
            pos = lambda f: z3.Implies(cn > 0, f)
            t.ensure(s, pos(st(1) == mean), 'mean of valid cells')
            t.ensure(s, pos(forall(lambda k: z3.Implies(z3.And(rng(0, k, n), valid(k)), st(2) >= R(sel(A, k))), 1, tr)), 'maximum bounds the valid cells')
            t.ensure(s, pos(exists(lambda x: z3.And(rng(0, x, n), valid(x), R(sel(A, x)) == st(2)), tr)), 'maximum is a valid cell')
            t.ensure(s, pos(forall(lambda k: z3.Implies(z3.And(rng(0, k, n), valid(k)), st(3) <= R(sel(A, k))), 1, tr)), 'minimum bounds the valid cells')
            t.ensure(s, pos(exists(lambda x: z3.And(rng(0, x, n), valid(x), R(sel(A, x)) == st(3)), tr)), 'minimum is a valid cell')
            t.ensure(s, pos(st(4) == SQRT(FDIV(Q(n), z3.ToReal(cn)))), 'standard deviation (population)')
            t.ensure(s, st(5) == st(2) - st(3), 'range is maximum minus minimum')
        t.unchanged([a])


for T in ('int', 'float', 'double'): stats1(T)


def stats2(T):
    @task('C04', 'BasicStatistics<%s>(2D)' % T, TU, cost=9)
    def _(t):
        E = t.E; E.exact_float = True
        array_specs(E, t.mod)
        n = t.int('num'); ly = t.int('lyrs')
        rows, a = t.array2d('values', ty_of(T), n, ly); A = t.content(a)
        ex = t.val(ty_of(T), 'exclude')
        t.require(z3.And(n >= 0, ly >= 1))
        v = lambda k, j: sel(sel(A, k), j)
        valid = lambda k, j: z3.Not(EQ(v(k, j), ex))
        if T != 'int': t.require(forall(lambda k, j: z3.And(v(k, j) <= FMAX, v(k, j) >= -FMAX), 2, v))
        F = {}
        F['count'] = fold(t, 'cnt', z3.RealVal(0), lambda f, k, j: z3.If(valid(k, j), f + 1, f), v, n=2)
        F['sum'] = fold(t, 'sum', z3.RealVal(0), lambda f, k, j: z3.If(valid(k, j), f + R(v(k, j)), f), v, n=2)
        F['max'] = fold(t, 'mx', -FMAX, lambda f, k, j: z3.If(z3.And(valid(k, j), f < R(v(k, j))), R(v(k, j)), f), v, n=2)
        F['min'] = fold(t, 'mn', FMAX, lambda f, k, j: z3.If(z3.And(valid(k, j), f > R(v(k, j))), R(v(k, j)), f), v, n=2)
        mean = z3.Function('mean', z3.IntSort(), z3.RealSort())
        q0 = z3.Int('q0')
        # the mean is the (total) quotient; with no valid cell nothing is claimed about it
        E.side_axioms.append(z3.ForAll([q0], z3.And(mean(q0) == FDIV(F['sum'](n, q0), F['count'](n, q0)), z3.Implies(F['count'](n, q0) > 0, mean(q0) * F['count'](n, q0) == F['sum'](n, q0))), patterns=[mean(q0)]))
        E.side_axioms.append(z3.ForAll([q0], z3.And(mean(q0) == FDIV(F['sum'](n, q0), F['count'](n, q0)), z3.Implies(F['count'](n, q0) > 0, mean(q0) * F['count'](n, q0) == F['sum'](n, q0))), patterns=[F['sum'](n, q0)]))
        Q = fold(t, 'sq', z3.RealVal(0), lambda f, k, j: z3.If(valid(k, j), f + (R(v(k, j)) - mean(j)) * (R(v(k, j)) - mean(j)), f), v, n=2)

        def inv(c):
            ints = c.int_locs()
            arrs = [(oid, off) for oid, off, ty in c.arrays() if ty.k == 'double']
            fr = [x for x in c.frame_ints()]
            g = lambda s, o, j: sel(s.mem[o[0]].arrs[o[1]][1], j)
            for o in arrs:
                for N, i in ints:
                    for nm, f in F.items():
                        # layer index loop inside cell loop i0: below j at i0+1, others at i0
                        yield '%s rows< %s %d' % (nm, N, o[0]), lambda s, i=i, f=f, o=o: forall(lambda q: z3.Implies(rng(0, q, ly), g(s, o, q) == f(i(s), q)))
                        for N2, r0 in fr:
                            if N2 == N: continue
                            yield '%s done< %s at %s %d' % (nm, N, N2, o[0]), lambda s, i=i, f=f, o=o, r0=r0: forall(lambda q: z3.Implies(rng(0, q, i(s)), g(s, o, q) == f(r0(s) + 1, q)))
                            yield '%s todo>= %s at %s %d' % (nm, N, N2, o[0]), lambda s, i=i, f=f, o=o, r0=r0: forall(lambda q: z3.Implies(rng(i(s), q, ly), g(s, o, q) == f(r0(s), q)))
                    for nm, val in (('zero', lambda q: z3.RealVal(0)), ('lowest', lambda q: -FMAX), ('highest', lambda q: FMAX), ('mean', lambda q: mean(q)),
                                    ('range', lambda q: F['max'](n, q) - F['min'](n, q)), ('sq', lambda q: Q(n, q)), ('std', lambda q: SQRT(FDIV(Q(n, q), F['count'](n, q))))):
                        yield '%s prefix %s %d' % (nm, N, o[0]), lambda s, i=i, o=o, val=val: forall(lambda q: z3.Implies(rng(0, q, i(s)), g(s, o, q) == val(q)))
                    yield 'sq suffix %s %d' % (N, o[0]), lambda s, i=i, o=o: forall(lambda q: z3.Implies(rng(i(s), q, ly), g(s, o, q) == Q(n, q)))
            for D, x in c.scalar_locs(DOUBLE):
                for N, i in ints:
                    for N2, r0 in fr:
                        if N2 != N: yield 'squares %s %s %s' % (D, N, N2), lambda s, i=i, x=x, r0=r0: x(s) == Q(i(s), r0(s))
        t.inv(inv)
        out = t.cell(PTR, NULL, 'derived')
        t.call('void BasicStatistics<%s>(%s const* const*, int, int, double***, %s)' % (T, T, T), Ptr(rows), n, ly, Ptr(out), ex)
        for s in t.rets:
            o = ival(simp(t.get(s, out).obj))
            live = [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive]
            t.ensure(s, o in live and len(live) == 7, 'one row array and six layer arrays')
            if o is None or 0 not in s.mem[o].arrs and not s.mem[o].cells: continue
            rp = []
            for k in range(6):
                r = E.load(s, Ptr(o, k), PTR)
                if len(r) != 1: raise Unsupported('statistic row')
                rp.append(ival(simp(r[0][1].obj)))
            t.ensure(s, len(set(rp)) == 6 and all(x in live for x in rp), 'six distinct blocks')
            if None in rp: continue
            def st(k, q): return sel(s.mem[rp[k]].arrs[0][1], q)
            al = lambda f: forall(lambda q: z3.Implies(rng(0, q, ly), f(q)))
            pos = lambda q, f: z3.Implies(F['count'](n, q) > 0, f)
            t.ensure(s, al(lambda q: st(0, q) == F['count'](n, q)), 'count of valid cells per layer')
            t.ensure(s, al(lambda q: pos(q, st(1, q) * F['count'](n, q) == F['sum'](n, q))), 'mean of valid cells per layer')
            t.ensure(s, al(lambda q: st(2, q) == F['max'](n, q)), 'maximum per layer')
            t.ensure(s, al(lambda q: st(3, q) == F['min'](n, q)), 'minimum per layer')
            t.ensure(s, al(lambda q: pos(q, st(4, q) == SQRT(FDIV(Q(n, q), F['count'](n, q))))), 'standard deviation per layer')
            t.ensure(s, al(lambda q: st(5, q) == F['max'](n, q) - F['min'](n, q)), 'range per layer')
        t.unchanged([a])


for T in ('int', 'float', 'double'): stats2(T)
