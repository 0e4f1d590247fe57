"""C26 statistics of a raster: BasicStatistics (C04) is a call-site contract here"""
from .maps import *

IDX = dict(VALID_CELLNUMBER=0, MEAN=1, MAX=2, MIN=3, STD=4, RANGE=5)
SIX = z3.K(z3.IntSort(), z3.BoolVal(False))
for _k in STK: SIX = z3.Store(SIX, lit(_k), z3.BoolVal(True))
_AS = {}


def STAT(a, two):
    """the k-th statistic C04 specifies of the first `num` cells (of a layer) of array a"""
    k = (a.sort().sexpr(), two)
    if k not in _AS: _AS[k] = z3.Function('STAT%d_%d' % (2 if two else 1, len(_AS)), *([z3.IntSort(), a.sort(), z3.IntSort(), z3.RealSort()] + ([z3.IntSort()] if two else []) + [z3.RealSort()]))
    return _AS[k]


class SpecBasic:
    def __init__(self, two): self.two = two

    def apply(self, E, st, a, inst):
        two = self.two
        vals, num = a[0], a[1]
        lyrs, out, nd = (a[2], a[3], a[4]) if two else (None, a[2], a[3])
        res = []
        for s, oid in E.resolve(st, vals, inst):
            E.oblige(s, z3.BoolVal(oid != 0), 'pre-BasicStatistics: values given', inst)
            if oid == 0: continue
            if not s.mem[oid].alive: E.oblige(s, z3.BoolVal(False), 'pre-BasicStatistics: values alive', inst); continue
            i0, _ = E.norm(s, vals, oid)
            E.oblige(s, z3.And(i0 == 0, num >= 0, num <= E.obj_len(s, oid)), 'pre-BasicStatistics: num values', inst)
            if two:
                c = ival(simp(z3.Select(s.mem[oid].arrs[0][1][0], 0)))
                if c is None: raise Unsupported('rows of the values')
                E.oblige(s, z3.And(lyrs >= 1, lyrs <= E.obj_len(s, c)), 'pre-BasicStatistics: layers', inst)
                A = s.mem[c].arrs[0][1]; F = STAT(A, True); q = z3.Int(E.nm('q'))
                o = E.new_obj(s, 'derived', 'new[]', PTR, I(6)); al = [o]
                w = z3.K(z3.IntSort(), I(0))
                for k in range(6):
                    r = E.new_obj(s, 'derived%d' % k, 'new[]', DOUBLE, lyrs); al.append(r)
                    s.w(r).arrs[0] = (DOUBLE, z3.Lambda([q], F(I(k), A, num, R(nd), q)))
                    w = z3.Store(w, k, I(r))
                z = z3.K(z3.IntSort(), I(0))
                s.w(o).arrs[0] = (PTR, (w, z, z, z))
            else:
                A = s.mem[oid].arrs[0][1]; F = STAT(A, False); k = z3.Int(E.nm('k'))
                o = E.new_obj(s, 'derived', 'new[]', DOUBLE, I(6)); al = [o]
                s.w(o).arrs[0] = (DOUBLE, z3.Lambda([k], F(k, A, num, R(nd))))
            s.ghost['allocs'] = s.ghost.get('allocs', ()) + tuple(al)
            for s2 in E.store(s, out, PTR, Ptr(o), inst): res.append((s2, None))
        return res


def basic_specs(t):
    array_specs(t.E, t.mod)
    for nm in list(t.mod.fn_text) + list(t.mod.decl_text):
        sig = t.mod.dem(nm)
        m = re.match(r'void BasicStatistics<(\w+)>\((\w+ const\*|\w+ const\* const\*), int,( int,)? double\*+, \w+\)$', sig)
        if m: t.E.specs[sig] = SpecBasic(bool(m.group(3)))


def stat_raster(t, T, two, pos, calc, maps=True, name='rs', **k):
    """raster whose statistics tables are as its class invariant says: six names; per-layer arrays exist iff computed (2D)"""
    r = Raster(t, T, two=two, pos=pos, name=name, **k)
    E, st = t.E, t.st
    st.w(r.oid).cells[r.L['stats_calculated_']] = (INT[8], I(calc)); r.sc = I(calc)
    st.w(r.s1).arrs['has'] = (BOOL, SIX); st.w(r.s2).arrs['has'] = (BOOL, SIX)
    r.sarr = {}
    w = z3.K(z3.IntSort(), I(0)); z = z3.K(z3.IntSort(), I(0))
    if two and calc:
        for k in STK:
            r.sarr[k] = t.array('stats_2d.' + k, DOUBLE, r.lyrs, kind='new[]'); w = z3.Store(w, lit(k), I(r.sarr[k]))
    t.st.w(r.s2).arrs[32] = (PTR, (w, z, z, z))
    return r


BOOL = __import__('llvc.stl2', fromlist=['BOOL']).BOOL


def isname(u): return z3.Or(*[u == lit(k) for k in STK])


def cur(r, s, k, l=None):
    """statistic number k of the current data"""
    A = s.mem[r.data].arrs[0][1]
    return STAT(A, True)(k, A, r.f(s, 'n_cells_'), R(r.f(s, 'no_data_value_')), l) if r.two else STAT(A, False)(k, A, r.f(s, 'n_cells_'), R(r.f(s, 'no_data_value_')))


def idx(u):
    e = I(-1)
    for k in STK: e = z3.If(u == lit(k), I(IDX[k]), e)
    return e


def layer_table(t, r, s, k):
    """object id of the layer array under name k, as a term"""
    return simp(sel(s.mem[r.s2].arrs[32][1][0], lit(k)))


def fresh_tables(t, r, s):
    """the tables hold exactly the statistics of the current data"""
    t.ensure(s, r.f(s, 'stats_calculated_') == 1, 'statistics are marked as computed')
    for k in STK:
        if r.two:
            t.ensure(s, has(t, s, r.s2, lit(k)), '%s is present' % k)
            o = ival(layer_table(t, r, s, k))
            t.ensure(s, o is not None and o != 0 and s.mem[o].alive, '%s has a live array' % k)
            if not o: continue
            t.ensure(s, E_len(t, s, o) == r.lyrs, '%s has one value per layer' % k)
            t.ensure(s, forall(lambda q: z3.Implies(rng(0, q, r.lyrs), sel(s.mem[o].arrs[0][1], q) == cur(r, s, I(IDX[k]), q))), '%s of every layer is that of the current data' % k)
        else:
            t.ensure(s, z3.And(has(t, s, r.s1, lit(k)), mval(t, s, r.s1, lit(k)) == cur(r, s, I(IDX[k]))), '%s is that of the current data' % k)
    if r.two: t.ensure(s, len({ival(layer_table(t, r, s, k)) for k in STK}) == 6, 'one array per statistic')
    live = [o for o in s.ghost.get('allocs', ()) if s.mem[o].alive]
    t.ensure(s, len(live) == (6 if r.two else 0), 'nothing else is kept')


def E_len(t, s, o): return t.E.obj_len(s, o)


def kept(t, r, s):
    t.ensure(s, r.f(s, 'stats_calculated_') == r.sc, 'the computed mark is unchanged')
    for n in (r.s1, r.s2): t.ensure(s, key_all(lambda k: same_entry(t, s, n, t.st0, n, k)), 'the tables are unchanged')


def obj_same(t, r, but=()):
    """members of the raster other than the statistics keep their values"""
    for s in t.rets:
        for f, o in r.L.items():
            if f in ('stats_calculated_',) + tuple(but) or o not in t.st0.mem[r.oid].cells or o not in s.mem[r.oid].cells: continue
            t.ensure(s, eqv(s.mem[r.oid].cells[o][1], t.st0.mem[r.oid].cells[o][1]), 'member %s is unchanged' % f)
    t.unchanged([o for o in r.objs() if o not in (r.oid, r.s1, r.s2)])


for T in ('float', 'int'):
    for two in (False, True):
        for pos in ('no', 'yes'):
            for calc in (0, 1):
                tag = '%s,%s,%s,%s' % (T, '2D' if two else '1D', 'positions' if pos == 'yes' else 'full grid', 'computed' if calc else 'not computed')
                if pos == 'yes' and T == 'int': continue

                @task('C26', 'CalculateStatistics %s' % tag, TUR)
                def _(t, T=T, two=two, pos=pos, calc=calc):
                    basic_specs(t); r = stat_raster(t, T, two, pos, calc)
                    t.call(r.method('CalculateStatistics()'), r.ptr())
                    for s in t.rets:
                        if calc: kept(t, r, s)
                        else: fresh_tables(t, r, s)
                    obj_same(t, r)

                @task('C26', 'UpdateStatistics %s' % tag, TUR)
                def _(t, T=T, two=two, pos=pos, calc=calc):
                    basic_specs(t); r = stat_raster(t, T, two, pos, calc)
                    t.call(r.method('UpdateStatistics()'), r.ptr())
                    for s in t.rets:
                        fresh_tables(t, r, s)
                        for k, o in r.sarr.items(): t.ensure(s, not s.mem[o].alive, 'the former array of %s is released' % k)
                    obj_same(t, r)

                @task('C26', 'GetStatistics(name,layer) %s' % tag, TUR)
                def _(t, T=T, two=two, pos=pos, calc=calc):
                    basic_specs(t); r = stat_raster(t, T, two, pos, calc)
                    so, a = sobj(t, 'name'); lyr = t.int('lyr'); u = UPPER(a)
                    s0 = t.st.clone()
                    t.call(r.method('GetStatistics(string, int)'), r.ptr(), Ptr(so), lyr)
                    ok = z3.And(isname(u), lyr >= 1, lyr <= r.lyrs)
                    for s in t.rets:
                        t.ensure(s, z3.Implies(z3.Not(ok), s.ret == r.defv), 'an unknown name or layer gives the default value')
                        for k in STK:
                            if calc: v = sel(s0.mem[r.sarr[k]].arrs[0][1], lyr - 1) if two else mval(t, s0, r.s1, lit(k))
                            else: v = cur(r, s, I(IDX[k]), lyr - 1)
                            t.ensure(s, z3.Implies(z3.And(ok, u == lit(k)), s.ret == v), '%s is the one of that layer' % k)
                        if calc or not t.E.feasible(s, ok): kept(t, r, s)
                        elif not t.E.feasible(s, z3.Not(ok)): fresh_tables(t, r, s)
                        else: t.ensure(s, False, 'statistics are computed exactly when asked for')
                    obj_same(t, r)

                if two:
                    @task('C26', 'GetStatistics(name) %s' % tag, TUR)
                    def _(t, T=T, two=two, pos=pos, calc=calc):
                        basic_specs(t); r = stat_raster(t, T, two, pos, calc)
                        so, a = sobj(t, 'name'); u = UPPER(a); pn = t.cell(I32, None, 'lyrnum'); pv = t.cell(PTR, NULL, 'values')
                        t.call(r.method('GetStatistics(string, int*, double**)'), r.ptr(), Ptr(so), Ptr(pn), Ptr(pv))
                        for s in t.rets:
                            p = t.get(s, pv)
                            t.ensure(s, z3.Implies(z3.Not(isname(u)), p.obj == 0), 'an unknown name gives no values')
                            t.ensure(s, z3.Implies(isname(u), t.get(s, pn) == r.lyrs), 'the number of layers is reported')
                            for k in STK: t.ensure(s, z3.Implies(u == lit(k), z3.And(p.obj == layer_table(t, r, s, k), p.idx == 0, p.off == 0)), 'the array of %s' % k)
                            if calc or not t.E.feasible(s, isname(u)): kept(t, r, s)
                            elif not t.E.feasible(s, z3.Not(isname(u))): fresh_tables(t, r, s)
                            else: t.ensure(s, False, 'statistics are computed exactly when asked for')
                        obj_same(t, r)
