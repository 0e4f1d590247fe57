"""C19 copies are deep and every owned block is released exactly once"""
from .ctor import *


class Sub:
    """a SubsetPositions object: n cells; positions present or not, owned iff alloc; own data none / one layer / several layers"""
    def __init__(self, t, name, data, alloc=1, n=None):
        self.t, self.name, self.kind = t, name, data
        self.L = L = layout(t.mod, 'SubsetPositions')
        self.oid = t.struct(name, 'new')
        self.n = n if n is not None else t.int(name + '.n_cells'); self.lyrs = t.int(name + '.n_lyrs')
        if n is None: t.require(self.n >= 1)
        if data == '2D': t.require(z3.And(self.lyrs >= 1, self.n * self.lyrs <= MAXN))
        t.require(2 * self.n <= MAXN)
        self.box = {}
        def put(f, ty, v): t.st.w(self.oid).cells[L[f]] = (ty, v)
        us = z3.Int(name + '.usable'); t.st.assume(z3.And(us >= 0, us <= 1)); put('usable', INT[8], us)
        put('n_cells', I32, self.n); put('n_lyrs', I32, self.lyrs)
        for f in ('g_srow', 'g_erow', 'g_scol', 'g_ecol'): self.box[f] = t.int(name + '.' + f); put(f, I32, self.box[f])
        put('alloc_', INT[8], I(alloc))
        self.glob = t.array(name + '.global', I32, self.n, kind='new[]'); put('global_', PTR, Ptr(self.glob))
        self.lrow, self.lpos = t.array2d(name + '.local_pos', I32, self.n, I(2), kind='new[]'); put('local_pos_', PTR, Ptr(self.lrow))
        self.lidx = t.array(name + '.local_posidx', I32, self.n, kind='new[]'); put('local_posidx_', PTR, Ptr(self.lidx))
        self.data = self.drow = None
        put('data_', PTR, NULL); put('data2d_', PTR, NULL)
        if data == '1D': self.data = t.array(name + '.data', DOUBLE, self.n, kind='new[]'); put('data_', PTR, Ptr(self.data))
        if data == '2D': self.drow, self.data = t.array2d(name + '.data2d', DOUBLE, self.n, self.lyrs, kind='new[]'); put('data2d_', PTR, Ptr(self.drow))

    def pos_objs(self): return [self.glob, self.lrow, self.lpos, self.lidx]
    def data_objs(self): return [o for o in (self.data, self.drow) if o is not None]
    def objs(self): return [self.oid] + self.pos_objs() + self.data_objs()
    def f(self, s, n, oid=None): return s.mem[oid or self.oid].cells[self.L[n]][1]


def released(t, s, oids, what, yes=True):
    for o in oids: t.ensure(s, s.mem[o].alive != yes, '%s: %s %s' % (what, t.E.info[o].name, 'is released' if yes else 'stays'))


def live(s): return [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive]


def copy1(t, s, p, src, n, what, used):
    """p designates a fresh array equal to the first n values of src"""
    o = ival(simp(p.obj))
    t.ensure(s, o is not None and o in live(s) and o not in used, '%s is a fresh array' % what)
    if not o or o not in live(s): return
    used.append(o)
    t.ensure(s, z3.And(p.idx == 0, t.E.obj_len(s, o) == n), '%s has its size' % what)
    A = t.st0.mem[src].arrs[0][1]
    t.ensure(s, forall(lambda i: z3.Implies(rng(0, i, n), sel(s.mem[o].arrs[0][1], i) == sel(A, i))), '%s holds the same values' % what)


def copy2(t, s, p, src, n, m, what, used):
    o = ival(simp(p.obj))
    t.ensure(s, o is not None and o in live(s) and o not in used, '%s is a fresh array' % what)
    if not o or o not in live(s): return
    c = ival(simp(sel(s.mem[o].arrs[0][1][0], 0))); used += [o, c]
    t.ensure(s, z3.And(p.idx == 0, t.E.obj_len(s, o) == n), '%s has its size' % what)
    A = t.st0.mem[src].arrs[0][1]; C = s.mem[c].arrs[0][1]
    t.ensure(s, forall(lambda i, l: z3.Implies(z3.And(rng(0, i, n), rng(0, l, m)), sel(sel(C, i), l) == sel(sel(A, i), l)), 2), '%s holds the same values' % what)


def sub_copied(t, s, oid, u, deep, used, lyrs=None):
    """object oid is a copy of the subset u"""
    L = u.L; g = lambda f: s.mem[oid].cells[L[f]][1]
    for f in ('usable', 'n_cells', 'g_srow', 'g_erow', 'g_scol', 'g_ecol'): t.ensure(s, g(f) == t.st0.mem[u.oid].cells[L[f]][1], 'subset member %s' % f)
    t.ensure(s, g('n_lyrs') == (u.lyrs if lyrs is None else lyrs), 'subset member n_lyrs')
    t.ensure(s, g('alloc_') == int(deep), 'a deep copy owns its positions, a shallow one does not')
    if deep:
        copy1(t, s, g('global_'), u.glob, u.n, 'global_', used); copy1(t, s, g('local_posidx_'), u.lidx, u.n, 'local_posidx_', used); copy2(t, s, g('local_pos_'), u.lpos, u.n, I(2), 'local_pos_', used)
    else:
        for f, o in (('global_', u.glob), ('local_posidx_', u.lidx), ('local_pos_', u.lrow)): t.ensure(s, eqv(g(f), Ptr(o)), '%s is shared' % f)
    if u.kind == '1D': copy1(t, s, g('data_'), u.data, u.n, 'data_', used)
    else: t.ensure(s, g('data_').obj == 0, 'data_ is null')
    if u.kind == '2D': copy2(t, s, g('data2d_'), u.data, u.n, u.lyrs, 'data2d_', used)
    else: t.ensure(s, g('data2d_').obj == 0, 'data2d_ is null')


for data in ('no', '1D', '2D'):
    for deep in (0, 1):
        for alloc in (0, 1):
            @task('C19', 'subset copy %s %s of %s' % ('deep' if deep else 'shallow', data, 'owner' if alloc else 'sharer'), TUR)
            def _(t, data=data, deep=deep, alloc=alloc):
                array_specs(t.E, t.mod); u = Sub(t, 'src', data, alloc); o = t.struct('copy'); ref = t.cell(PTR, Ptr(u.oid), 'ref')
                t.call('SubsetPositions::SubsetPositions(SubsetPositions*&, bool)', Ptr(o), Ptr(ref), I(deep) == 1)
                for s in t.rets:
                    used = []; sub_copied(t, s, o, u, deep, used)
                    t.ensure(s, len(live(s)) == len(used), 'nothing else is allocated')
                t.unchanged(u.objs())
    for alloc in (0, 1):
        for part in ('all', 'none'):
            if part == 'none' and data != 'no': continue
            @task('C19', 'subset destruction %s %s%s' % ('owner' if alloc else 'sharer', data, ' empty' if part == 'none' else ''), TUR)
            def _(t, data=data, alloc=alloc, part=part):
                array_specs(t.E, t.mod); u = Sub(t, 'sub', data, alloc)
                if part == 'none':
                    for f in ('global_', 'local_pos_', 'local_posidx_'): t.st.w(u.oid).cells[u.L[f]] = (PTR, NULL)
                t.call('SubsetPositions::~SubsetPositions()', Ptr(u.oid))
                for s in t.rets:
                    released(t, s, u.data_objs(), 'data')
                    released(t, s, u.pos_objs(), 'positions', alloc == 1 and part == 'all')


def with_subsets(t, r, subs):
    """put subsets under arbitrary distinct keys into the raster"""
    keys = [t.int('group%d' % i) for i in range(len(subs))]
    for a in range(len(keys) - 1): t.require(keys[a] < keys[a + 1])
    w = t.st.w(r.sub); h = z3.K(z3.IntSort(), z3.BoolVal(False)); z = z3.K(z3.IntSort(), I(0)); v = z
    for k, u in zip(keys, subs): h = z3.Store(h, k, True); v = z3.Store(v, k, I(u.oid))
    off = voff(t, r.sub); w.arrs['has'] = (BOOLTY, h); w.arrs[off] = (PTR, (v, z, z, z))
    return keys


BOOLTY = stl2.BOOL


def owned_by(r, subs):
    o = [r.data, r.rowp] + list(r.sarr.values())
    if r.own: o += [r.pidx, r.prow, r.pdat]
    for u in subs: o += u.objs()
    return [x for x in o if x is not None]


def raster_of(t, T, two, pos, calc, name):
    r = stat_raster(t, T, two, 'no' if pos == 'no' else 'yes', calc, name=name, halfpos=True)
    r.own = pos == 'own'; r.mk = None
    if pos == 'shared':
        t.st.w(r.oid).cells[r.L['store_pos_']] = (INT[8], I(0))
        r.mk = t.struct(name + '.mask'); t.st.w(r.oid).cells[r.L['mask_']] = (PTR, Ptr(r.mk))
    return r


NS = 2
for T in ('float', 'int'):
    for two in (False, True):
        for pos in ('no', 'own', 'shared'):
            for calc in (0, 1):
                for ns in ((0, NS) if T == 'float' else (0,)):
                    @task('C19', 'raster destruction %s,%s,%s positions,%s,%d subsets' % (T, '2D' if two else '1D', pos, 'computed' if calc else 'not computed', ns), TUR)
                    def _(t, T=T, two=two, pos=pos, calc=calc, ns=ns):
                        array_specs(t.E, t.mod); r = raster_of(t, T, two, pos, calc, 'rs')
                        subs = [Sub(t, 'sub%d' % i, ('no', '1D', '2D')[i], 1) for i in range(ns)]; with_subsets(t, r, subs)
                        t.call('clsRasterData<%s, int>::~clsRasterData()' % T, r.ptr())
                        for s in t.rets:
                            released(t, s, owned_by(r, subs), 'owned block')
                            if pos == 'shared': released(t, s, [r.pidx, r.prow, r.pdat], 'block of the mask', False)


def copied(t, x, r, subs, keys, used):
    for s in t.rets:
        s0 = t.st0
        u0 = s0.mem[r.oid].cells
        flags(t, x, s, n_cells_=r.n, n_lyrs_=r.lyrs, rs_type_=r.rt, rs_type_out_=r.rto, default_value_=r.defv, is_2draster=int(r.two), calc_pos_=int(r.pos != 'no'), store_pos_=int(r.pos != 'no'), stats_calculated_=r.sc, initialized_=1)
        t.ensure(s, x.f(s, 'no_data_value_') == r.nd, 'the no-data value'); t.ensure(s, eqv(x.f(s, 'mask_'), u0[r.L['mask_']][1]), 'the mask')
        t.ensure(s, x.f(s, 'use_mask_ext_') == (u0[r.L['use_mask_ext_']][1] if r.mk else 0), 'the mask-extent choice')
        t.ensure(s, x.f(s, 'full_path_').a == r.fp, 'the file path')
        null(t, x, s, 'raster_' if r.two else 'raster_2d_')
        used = []
        if r.two: copy2(t, s, x.f(s, 'raster_2d_'), r.data, r.n, r.lyrs, 'values', used)
        else: copy1(t, s, x.f(s, 'raster_'), r.data, r.n, 'values', used)
        if r.pos == 'no': null(t, x, s, 'pos_data_', 'pos_idx_')
        else: copy2(t, s, x.f(s, 'pos_data_'), r.pdat, r.n, I(2), 'positions', used); copy1(t, s, x.f(s, 'pos_idx_'), r.pidx, r.n, 'position indices', used)
        n1, n2 = x.node(s, 'stats_'), x.node(s, 'stats_2d_')
        calc = ival(simp(r.sc)) == 1
        for k in STK:
            t.ensure(s, z3.And(has(t, s, n1, lit(k)), has(t, s, n2, lit(k))), 'statistic %s is known' % k)
            if r.two and calc: copy1(t, s, mval(t, s, n2, lit(k)), r.sarr[k], r.lyrs, 'statistic %s' % k, used)
            else: t.ensure(s, mval(t, s, n2, lit(k)).obj == 0, 'no layer statistic %s' % k)
            if calc and not r.two: t.ensure(s, mval(t, s, n1, lit(k)) == mval(t, s0, r.s1, lit(k)), 'statistic %s' % k)
        for n in (n1, n2): t.ensure(s, key_all(lambda k: z3.Implies(has(t, s, n, k), one_of(k, STK))), 'no other statistics')
        h, o = x.node(s, 'headers_'), x.node(s, 'options_')
        t.ensure(s, key_all(lambda k: z3.Implies(has(t, s0, r.hnode, k), same_entry(t, s, h, s0, r.hnode, k))), 'the header entries')
        t.ensure(s, key_all(lambda k: z3.Implies(has(t, s0, r.onode, k), same_entry(t, s, o, s0, r.onode, k))), 'the options')
        sn = x.node(s, 'subset_')
        t.ensure(s, key_all(lambda k: has(t, s, sn, k) == z3.Or(*[k == q for q in keys])), 'the groups of the subsets')
        for q, u in zip(keys, subs):
            p = mval(t, s, sn, q); rs = t.E.resolve(s, p)
            t.ensure(s, len(rs) == 1 and rs[0][1] not in [w.oid for w in subs] and rs[0][1] != 0, 'a subset of its own')
            if len(rs) == 1 and rs[0][1]: used.append(rs[0][1]); sub_copied(t, s, rs[0][1], u, 1, used)
        t.ensure(s, len(set(used)) == len(used), 'no block is used twice')
        extra = [q for q in live(s) if q not in used]
        t.ensure(s, not extra, 'nothing else is kept')
    t.unchanged(r.objs() + list(r.sarr.values()) + [o for u in subs for o in u.objs()])


for T in ('float', 'int'):
    for two in (False, True):
        for pos in ('no', 'own', 'shared'):
            for calc in (0, 1):
                for tgt in ('new', '1D,no,0', '1D,own,1', '1D,shared,0', '2D,own,1', '2D,shared,0'):
                    ns = NS if tgt in ('new', '1D,own,1') and calc and pos == 'own' else 0
                    if T == 'int' and tgt not in ('new', '2D,own,1'): continue
                    @task('C19', 'Copy %s,%s,%s positions,%s onto %s' % (T, '2D' if two else '1D', pos, 'computed' if calc else 'not computed', tgt), TUR)
                    def _(t, T=T, two=two, pos=pos, calc=calc, tgt=tgt, ns=ns):
                        array_specs(t.E, t.mod); merge_specs(t)
                        r = raster_of(t, T, two, pos, calc, 'src')
                        subs = [Sub(t, 'sub%d' % i, ('2D' if two else '1D', 'no')[i], i) for i in range(ns)]; keys = with_subsets(t, r, subs)
                        q = None; tsub = []
                        if tgt == 'new': o = t.struct('rs')
                        else:
                            k, p, c = tgt.split(','); q = raster_of(t, T, k == '2D', p, int(c), 'rs'); o = q.oid
                            if ns: tsub = [Sub(t, 'old', '1D', 1)]; with_subsets(t, q, tsub)
                        x = Obj(t, o, T)
                        if tgt == 'new': t.call('clsRasterData<%s, int>::clsRasterData(clsRasterData<%s, int>*)' % (T, T), Ptr(o), r.ptr())
                        else: t.call('clsRasterData<%s, int>::Copy(clsRasterData<%s, int>*)' % (T, T), Ptr(o), r.ptr())
                        copied(t, x, r, subs, keys, [])
                        if q is not None:
                            for s in t.rets:
                                released(t, s, owned_by(q, tsub), 'former block')
                                if not q.own and q.pos == 'yes': released(t, s, [q.pidx, q.prow, q.pdat], 'block of the mask', False)


for idx in (0, 1):
    for pos in ('no', 'own', 'shared'):
        @task('C19', 'SetPositions %s,%s positions' % ('indices' if idx else 'rows and columns', pos), TUR)
        def _(t, idx=idx, pos=pos):
            array_specs(t.E, t.mod); r = raster_of(t, 'float', False, pos, 0, 'rs'); ln = t.int('len')
            if idx: d = t.array('given', I32, ln, kind='new[]'); new = Ptr(d)
            else: p, d = t.array2d('given', I32, ln, I(2), kind='new[]'); new = Ptr(p)
            t.require(ln >= 1)
            t.call(r.method('SetPositions(int, int*%s)' % ('' if idx else '*')), r.ptr(), ln, new)
            mine, other = ('pos_idx_', 'pos_data_') if idx else ('pos_data_', 'pos_idx_')
            for s in t.rets:
                bad = z3.And(ln != r.n, pos != 'no')
                no = not t.E.feasible(s, z3.Not(bad)) if pos != 'no' else False
                if pos != 'no' and no:
                    t.ensure(s, z3.Not(s.ret), 'a wrong length is refused')
                    for f in (mine, other, 'store_pos_', 'calc_pos_'): t.ensure(s, eqv(r.f(s, f), t.st0.mem[r.oid].cells[r.L[f]][1]), '%s is kept' % f)
                    released(t, s, [r.pidx, r.prow, r.pdat], 'block', False); continue
                if pos != 'no' and t.E.feasible(s, bad): t.ensure(s, False, 'the length is checked'); continue
                t.ensure(s, z3.And(s.ret, eqv(r.f(s, mine), new), r.f(s, 'calc_pos_') == 1, r.f(s, 'store_pos_') == 0), 'the given positions are used, not owned')
                t.ensure(s, eqv(r.f(s, other), t.st0.mem[r.oid].cells[r.L[other]][1]), 'the other form is kept')
                if pos == 'own':
                    released(t, s, [r.pidx] if idx else [r.prow, r.pdat], 'owned block')
                    t.ensure(s, z3.Not(z3.BoolVal(s.mem[r.prow if idx else r.pidx].alive)), 'SetPositions ownership: no owned block is left without an owner')
                if pos == 'shared': t.ensure(s, s.mem[r.pidx if idx else r.prow].alive, 'SetPositions ownership: a block of the mask is not released')
