"""C28 looking up and removing values in a vector"""
from llvc.api import *
from llvc import stl2
from .specs import *


def vec_arg(t, T):
    v = stl2.new_vec(t.E, t.st, T, t.int('n', 64), name='vec')
    n = t.st.mem[v].n; t.require(z3.And(n >= 0, n < 1 << 60))
    o = t.struct('vec.obj'); t.st.w(o).cells[0] = ('stl', stl2.VecV(v))
    return o, v, n


for T in ('int', 'float', 'double'):
    @task('C28', 'ValueInVector<%s>' % T, 'array.cpp')
    def _(t, T=T):
        o, v, n = vec_arg(t, T); x = t.val(ty_of(T), 'val'); A = t.content(v)
        def inv(c):
            for nm, g in c.int_locs():
                yield 'absent before %s' % nm, lambda s, g=g: forall(lambda q: z3.Implies(z3.And(q >= 0, q < g(s)), sel(A, q) != x), 1, lambda q: sel(A, q))
        t.inv(inv)
        t.call('bool ValueInVector<%s>(%s, vector<%s> const&)' % (T, T, T), x, Ptr(o))
        for s in t.rets:
            t.ensure(s, z3.Implies(s.ret, exists(lambda q: z3.And(q >= 0, q < n, sel(A, q) == x))), 'found only if an element equals the value')
            t.ensure(s, z3.Implies(z3.Not(s.ret), forall(lambda q: z3.Implies(rng(0, q, n), sel(A, q) != x))), 'not found only if no element equals the value')
            t.ensure(s, s.mem[v].n == n, 'the length is unchanged')
        t.unchanged([v, o])

    @task('C28', 'RemoveValueInVector<%s>' % T, 'array.cpp')
    def _(t, T=T):
        o, v, n = vec_arg(t, T); x = t.val(ty_of(T), 'val'); A = t.content(v)
        F = lambda k: stl2.KEPT(t.E, A.sort(), x.sort())(A, x, k)
        ln = lambda s: s.mem[v].n
        R = lambda s, j: sel(s.mem[v].arrs[0][1], j)
        def inv(c):
            for nm, g in c.int_locs():
                if nm.startswith('vec.n'): continue
                gone = lambda s: n - ln(s)
                yield 'position %s' % nm, lambda s, g=g: z3.And(g(s) >= 0, g(s) <= ln(s), ln(s) <= n)
                yield 'kept %s' % nm, lambda s, g=g: g(s) == F(g(s) + n - ln(s))
                yield 'rest %s' % nm, lambda s, g=g: forall(lambda j: z3.Implies(z3.And(j >= g(s), j < ln(s)), R(s, j) == sel(A, j + n - ln(s))), 1)
                yield 'no value %s' % nm, lambda s, g=g: forall(lambda j: z3.Implies(z3.And(j >= 0, j < g(s)), R(s, j) != x), 1)
                yield 'order %s' % nm, lambda s, g=g: forall(lambda k: z3.Implies(z3.And(k >= 0, k < g(s) + n - ln(s), sel(A, k) != x), z3.And(F(k) >= 0, F(k) < g(s), R(s, F(k)) == sel(A, k))), 1, lambda k: sel(A, k))
                for n2, h in c.int_locs():
                    # read and write positions apart, the length still that of the input
                    if n2 == nm or n2.startswith('vec.n'): continue
                    w = '%s %s' % (nm, n2); P = lambda s, g=g, h=h: z3.And(0 <= g(s), g(s) <= h(s), h(s) <= n, ln(s) == n)
                    yield 'positions ' + w, P
                    yield 'kept so far ' + w, lambda s, g=g, h=h: g(s) == F(h(s))
                    yield 'unread ' + w, lambda s, h=h: forall(lambda j: z3.Implies(z3.And(j >= h(s), j < n), R(s, j) == sel(A, j)), 1)
                    yield 'order so far ' + w, lambda s, g=g, h=h: forall(lambda k: z3.Implies(z3.And(k >= 0, k < h(s), sel(A, k) != x), z3.And(F(k) >= 0, F(k) < g(s), R(s, F(k)) == sel(A, k))), 1, lambda k: sel(A, k))
        t.inv(inv)
        t.call('void RemoveValueInVector<%s>(%s, vector<%s>&)' % (T, T, T), x, Ptr(o))
        for s in t.rets:
            oid = s.mem[o].cells[0][1].oid
            t.ensure(s, oid == v, 'the vector itself is edited')
            t.ensure(s, ln(s) == F(n), 'one element per element that differs from the value')
            t.ensure(s, forall(lambda j: z3.Implies(rng(0, j, ln(s)), R(s, j) != x)), 'no element equals the value')
            t.ensure(s, forall(lambda k: z3.Implies(z3.And(rng(0, k, n), sel(A, k) != x), z3.And(F(k) >= 0, F(k) < ln(s), R(s, F(k)) == sel(A, k)))), 'the others keep their order')
