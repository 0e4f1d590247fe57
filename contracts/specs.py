"""contracts used at call sites (each is proved for the instantiations in contracts/array.py and assumed here)"""
from llvc.api import *


def tys(T): return {'int': I32, 'float': FLOAT, 'double': DOUBLE, 'short': I16, 'long': I64}[T]


ty_of = tys


def sel(a, k): return z3.Select(a, k)


def rng(lo, k, hi): return z3.And(lo <= k, k < hi)


def R(v): return z3.ToReal(v) if v.sort() == z3.IntSort() else v


import fractions
_f = fractions.Fraction(1e-32)
EPS = z3.Q(_f.numerator, _f.denominator)


def EQ(a, b):
    """the equality every component uses on cell values: |a-b| < 1e-32"""
    a, b = R(a), R(b)
    return z3.And(a - b < EPS, b - a < EPS)


FMAX = z3.RealVal(int(3.4028234663852886e38))


def conv(E, st, v, U, T):
    """static_cast<T>(U v) in the verifier's arithmetic"""
    a, b = tys(U), tys(T)
    if a.k == 'int' and b.k == 'int': return v if a.bits <= b.bits else E.wrap(st, v, b.bits)
    if a.k == 'int': return E.fround(z3.ToReal(v), b)
    if b.k == 'int':
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if b.k == 'float' and a.k == 'double': return E.fround(v, b)
    return v


def trunc_ok(v, U, T):
    """the conversion is defined"""
    a, b = tys(U), tys(T)
    if a.k != 'int' and b.k == 'int':
        r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return z3.And(r >= -(1 << (b.bits - 1)), r <= (1 << (b.bits - 1)) - 1)
    return z3.BoolVal(True)


class SpecInit1D:
    """Initialize1DArray(row, data, init): false and nothing changes when data is not null or row <= 0;
    otherwise data becomes a fresh block of row elements, each init (converted)"""
    def __init__(self, T, U, ptr): self.T, self.U, self.ptr = T, U, ptr

    def apply(self, E, st, a, inst):
        row, pd, iv = a
        out = []
        for s, p in E.load(st, pd, PTR, inst):
            free = simp(p.obj == 0)
            if not z3.is_true(free) and E.feasible(s, z3.Not(free)):
                s2 = s.clone(); s2.assume(z3.Not(free)); out.append((s2, z3.BoolVal(False)))
            if z3.is_false(free) or not E.feasible(s, free): continue
            s.assume(free)
            if not self.ptr:
                if E.feasible(s, row <= 0):
                    s2 = s.clone(); s2.assume(row <= 0); out.append((s2, z3.BoolVal(False)))
                if not E.feasible(s, row > 0): continue
                s.assume(row > 0)
                E.oblige(s, trunc_ok(iv, self.U, self.T), 'init-value-convertible', inst)
            else:
                E.oblige(s, z3.And(row > 0, iv.obj != 0), 'pre-Initialize1DArray', inst)
            oid = E.new_obj(s, 'heap1d', 'new[]', tys(self.T), row)
            s.ghost['allocs'] = s.ghost.get('allocs', ()) + (oid,)
            if not self.ptr:
                arr = z3.K(z3.IntSort(), conv(E, s, iv, self.U, self.T))
                s.w(oid).arrs[0] = (tys(self.T), arr)
            else:
                rs = E.resolve(s, iv, inst)
                if len(rs) != 1: raise Unsupported('init_data')
                so = rs[0][1]; si = E.info[so]
                i0, _ = E.norm(s, iv, so)
                E.oblige(s, z3.And(i0 >= 0, i0 + row <= E.obj_len(s, so)), 'init_data has row elements', inst)
                if 0 not in s.mem[so].arrs: E.init_arr(s, so, 0, tys(self.U), si.name)
                src = s.mem[so].arrs[0][1]
                if si.rows is not None: src = z3.Select(src, iv.row)
                k = z3.Int(E.nm('k'))
                s.w(oid).arrs[0] = (tys(self.T), src if self.T == self.U and ival(i0) == 0 else z3.Lambda([k], conv(E, s, z3.Select(src, k + i0), self.U, self.T)))
            for s3 in E.store(s, pd, PTR, Ptr(oid), inst): out.append((s3, z3.BoolVal(True)))
        return out


class SpecInit2D:
    def __init__(self, T, U, ptr): self.T, self.U, self.ptr = T, U, ptr

    def apply(self, E, st, a, inst):
        row, col, pd, iv = a
        out = []
        for s, p in E.load(st, pd, PTR, inst):
            free = simp(p.obj == 0)
            if not z3.is_true(free) and E.feasible(s, z3.Not(free)):
                s2 = s.clone(); s2.assume(z3.Not(free)); out.append((s2, z3.BoolVal(False)))
            if z3.is_false(free) or not E.feasible(s, free): continue
            s.assume(free)
            E.oblige(s, z3.And(row > 0, col > 0), 'pre-Initialize2DArray: positive dimensions', inst)
            E.oblige(s, row * col <= 0x7fffffff, 'pre-Initialize2DArray: row*col fits', inst)
            c = E.new_obj(s, 'heap2d', 'new[]', tys(self.T), col, row)
            r = E.new_obj(s, 'heap2d.rows', 'new[]', PTR, row)
            s.ghost['allocs'] = s.ghost.get('allocs', ()) + (c, r)
            i = z3.Int(E.nm('i'))
            s.w(r).arrs[0] = (PTR, (z3.K(z3.IntSort(), I(c)), z3.K(z3.IntSort(), I(0)), z3.K(z3.IntSort(), I(0)), z3.Lambda([i], i)))
            if not self.ptr:
                s.w(c).arrs[0] = (tys(self.T), z3.K(z3.IntSort(), z3.K(z3.IntSort(), conv(E, s, iv, self.U, self.T))))
            else:
                rs = E.resolve(s, iv, inst)
                if len(rs) != 1 or rs[0][1] == 0: raise Unsupported('init_data')
                so = rs[0][1]
                ca = s.mem[so].arrs[0][1]
                o2 = ival(simp(z3.Select(ca[0], 0)))
                if o2 is None: raise Unsupported('init_data rows')
                E.oblige(s, z3.And(row <= E.obj_len(s, so), col <= E.obj_len(s, o2)), 'init_data is row x col', inst)
                src = s.mem[o2].arrs[0][1]
                k = z3.Int(E.nm('k')); j = z3.Int(E.nm('j'))
                arr = src if self.T == self.U else z3.Lambda([k], z3.Lambda([j], conv(E, s, z3.Select(z3.Select(src, k), j), self.U, self.T)))
                s.w(c).arrs[0] = (tys(self.T), arr)
            for s3 in E.store(s, pd, PTR, Ptr(r), inst): out.append((s3, z3.BoolVal(True)))
        return out


class SpecRelease1D:
    def apply(self, E, st, a, inst):
        out = []
        for s, p in E.load(st, a[0], PTR, inst):
            for s2 in E.free(s, p, 'new[]', inst):
                for s3 in E.store(s2, a[0], PTR, NULL, inst): out.append((s3, None))
        return out


class SpecRelease2D:
    def apply(self, E, st, a, inst):
        out = []
        for s, p in E.load(st, a[0], PTR, inst):
            for s2, oid in E.resolve(s, p, inst):
                if oid == 0:
                    out.append((s2, None)); continue
                if not s2.mem[oid].alive:
                    E.oblige(s2, z3.BoolVal(False), 'double-free-2d', inst); continue
                for s3, q in E.load(s2, p.with_(obj=oid), PTR, inst):
                    for s4 in E.free(s3, q, 'new[]', inst):
                        for s5 in E.free(s4, p.with_(obj=oid), 'new[]', inst):
                            for s6 in E.store(s5, a[0], PTR, NULL, inst): out.append((s6, None))
        return out


def array_specs(E, mod):
    """install the array contracts on every instantiation present in the module"""
    for nm in list(mod.fn_text) + list(mod.decl_text):
        sig = mod.dem(nm)
        m = re.match(r'bool Initialize1DArray<(\w+), (\w+)>\(int, \w+\*&, (\w+)(\*?)( const)?\)$', sig)
        if m and m.group(1) in TYN and m.group(2) in TYN: E.specs[sig] = SpecInit1D(m.group(1), m.group(2), bool(m.group(4))); continue
        m = re.match(r'bool Initialize2DArray<(\w+), (\w+)>\(int, int, \w+\*\*&, (\w+)(\*\*)?( const)?\)$', sig)
        if m and m.group(1) in TYN and m.group(2) in TYN: E.specs[sig] = SpecInit2D(m.group(1), m.group(2), bool(m.group(4))); continue
        if re.match(r'void Release1DArray<\w+>\(', sig): E.specs[sig] = SpecRelease1D()
        elif re.match(r'void Release2DArray<\w+>\(', sig): E.specs[sig] = SpecRelease2D()


TYN = {'int', 'float', 'double', 'short', 'long'}
