"""C20 headers and options; C24 data type tables"""
from .rasterlib import *
from llvc.stl2 import UPPER, STR

NOD = z3.RealVal(-9999)
FA = itertools.count(1)


def map_arg(t, k, v, name):
    node = sym_map(t.E, t.st, k, v, name)
    o = t.struct(name + '.obj'); t.st.w(o).cells[0] = ('stl', MapV(node))
    return o, node


def sobj(t, name, atom=None):
    o = t.struct(name); a = z3.Int(name + '.text') if atom is None else atom
    t.st.w(o).cells[0] = ('stl', StrV(a))
    return o, a


def voff(t, node): return t.E.info[node].ty.voff
def has(t, s, node, k): return sel(s.mem[node].arrs['has'][1], k)


def mval(t, s, node, k):
    c = s.mem[node].arrs[voff(t, node)][1]
    return Ptr(*[simp(sel(x, k)) for x in c]) if isinstance(c, tuple) else sel(c, k)


def ret_map(s, o): return s.mem[o].cells[0][1].oid


def same_entry(t, s, na, s0, nb, k): return z3.And(has(t, s, na, k) == has(t, s0, nb, k), z3.Implies(has(t, s0, nb, k), eqv(mval(t, s, na, k), mval(t, s0, nb, k))))


def key_all(f): return forall(lambda k: f(k))


def set_one(t, node, key, v, name):
    s0 = t.st0
    for s in t.rets:
        t.ensure(s, z3.And(has(t, s, node, key), eqv(mval(t, s, node, key), v)), 'the key holds the given value')
        t.ensure(s, key_all(lambda k: z3.Implies(k != key, same_entry(t, s, node, s0, node, k))), 'every other entry is unchanged')


UH = {'double': 'void UpdateHeader<double>(STRDBL_MAP&, string const&, double)', 'int': 'void UpdateHeader<int>(STRDBL_MAP&, string const&, int)', 'float': 'void UpdateHeader<float>(STRDBL_MAP&, string const&, float)'}
for ty in UH:
    @task('C20', 'UpdateHeader<%s>' % ty, TUR)
    def _(t, ty=ty):
        m, node = map_arg(t, 'string', 'double', 'header'); ko, k = sobj(t, 'key')
        v = t.val(ty_of(ty), 'val')
        t.call(UH[ty], Ptr(m), Ptr(ko), v)
        set_one(t, node, k, z3.ToReal(v) if ty == 'int' else v, ty)
        t.unchanged([ko])

for fn in ('UpdateStrHeader(STRING_MAP&, string const&, string const&)', 'UpdateStringMap(STRING_MAP&, string const&, string const&)'):
    @task('C20', fn.split('(')[0], TUR)
    def _(t, fn=fn):
        m, node = map_arg(t, 'string', 'string', 'opts'); ko, k = sobj(t, 'key'); vo, v = sobj(t, 'val')
        t.call(fn, Ptr(m), Ptr(ko), Ptr(vo))
        set_one(t, node, k, v, '')
        t.unchanged([ko, vo])

for fn, vt in (('CopyHeader(STRDBL_MAP const&, STRDBL_MAP&)', 'double'), ('CopyStringMap(STRING_MAP const&, STRING_MAP&)', 'string')):
    @task('C20', fn.split('(')[0], TUR)
    def _(t, fn=fn, vt=vt):
        a, na = map_arg(t, 'string', vt, 'from'); b, nb = map_arg(t, 'string', vt, 'to')
        s0 = t.st.clone()
        t.inv(merge_inv(t, na, nb, s0))
        t.call(fn, Ptr(a), Ptr(b))
        for s in t.rets:
            t.ensure(s, key_all(lambda k: z3.If(has(t, s0, na, k), z3.And(has(t, s, nb, k), mval(t, s, nb, k) == mval(t, s0, na, k)), same_entry(t, s, nb, s0, nb, k))), 'entries of the source win, every other entry is kept')
        t.unchanged([a, na])


def has_pat(t, nb):
    def f(s, k): a = s.mem[nb].arrs['has'][1]; return sel(a, k) if z3.is_const(a) else None
    return f


def val_pat(t, nb):
    def f(s, k): a = s.mem[nb].arrs[voff(t, nb)][1]; return sel(a, k) if z3.is_const(a) else None
    return f


def fa(s, f, p):
    k = z3.Int('q_k!%d' % next(FA)); pt = p(s, k)
    return z3.ForAll([k], f(k), patterns=[pt]) if pt is not None else z3.ForAll([k], f(k))


def merge_inv(t, na, nb, s0):
    """after p entries of na were visited, nb holds those values and its own old entries otherwise"""
    def inv(c):
        from llvc.stl2 import enum
        if not any(o == nb for o, off, ty in c.arrays()): return
        for nm, f in c.int_locs():
            def done(s, k, f=f):
                e = enum(t.E, s, na)
                return z3.And(has(t, s, na, k), e.pos(k) < f(s))
            hp, vp = has_pat(t, nb), val_pat(t, nb)
            yield 'merged keys %s' % nm, lambda s, done=done: fa(s, lambda k: has(t, s, nb, k) == z3.Or(done(s, k), has(t, s0, nb, k)), hp)
            yield 'merged values %s' % nm, lambda s, done=done: fa(s, lambda k: z3.If(done(s, k), mval(t, s, nb, k) == mval(t, s0, na, k), mval(t, s, nb, k) == mval(t, s0, nb, k)), vp)
    return inv


EMPTY = z3.K(z3.IntSort(), z3.BoolVal(False))
HK = ['NCOLS', 'NROWS', 'XLLCENTER', 'YLLCENTER', 'CELLSIZE', 'NODATA_VALUE', 'LAYERS', 'CELLSNUM']
SK = ['SRS', 'DATATYPE', 'DATATYPE_OUT', 'INCLUDE_NODATA', 'MASK_NAME']
STK = ['VALID_CELLNUMBER', 'MIN', 'MAX', 'MEAN', 'STD', 'RANGE']


def one_of(k, ks): return z3.Or(*[k == lit(x) for x in ks])


@task('C20', 'InitialHeader', TUR)
def _(t):
    o = t.struct('result')
    t.call('InitialHeader()', Ptr(o))
    for s in t.rets:
        n = ret_map(s, o)
        t.ensure(s, key_all(lambda k: has(t, s, n, k) == one_of(k, HK)), 'exactly the eight header keys')
        t.ensure(s, z3.And(*[mval(t, s, n, lit(k)) == NOD for k in HK]), 'every value is the no-data value')


@task('C20', 'InitialStrHeader', TUR)
def _(t):
    o = t.struct('result')
    t.call('InitialStrHeader()', Ptr(o))
    for s in t.rets:
        n = ret_map(s, o)
        t.ensure(s, key_all(lambda k: has(t, s, n, k) == one_of(k, SK)), 'exactly the five option keys')
        t.ensure(s, z3.And(*[mval(t, s, n, lit(k)) == 0 for k in SK]), 'every option is empty')


@task('C20', 'InitialStatsMap', TUR)
def _(t):
    a, na = map_arg(t, 'string', 'double', 'stats'); b, nb = map_arg(t, 'string', 'double*', 'stats2d')
    s0 = t.st.clone()
    t.call('InitialStatsMap(STRDBL_MAP&, STRPDBL_MAP&)', Ptr(a), Ptr(b))
    for s in t.rets:
        for n, z in ((na, NOD), (nb, NULL)):
            t.ensure(s, key_all(lambda k: z3.If(has(t, s0, n, k), same_entry(t, s, n, s0, n, k), has(t, s, n, k) == one_of(k, STK))), 'existing entries are kept and the six statistics are present')
            t.ensure(s, z3.And(*[z3.Implies(z3.Not(has(t, s0, n, lit(k))), eqv(mval(t, s, n, lit(k)), z)) for k in STK]), 'new entries are marked as not calculated')


for T in ('float', 'int'):
    @task('C20', 'SetHeader %s' % T, TUR)
    def _(t, T=T):
        r = Raster(t, T); b, nb = map_arg(t, 'string', 'double', 'refers')
        s0 = t.st.clone()
        t.inv(merge_inv(t, nb, r.hnode, s0))
        new = lambda k: z3.If(has(t, s0, nb, lit(k)), mval(t, s0, nb, lit(k)), mval(t, s0, r.hnode, lit(k)))
        tr = lambda v: z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        for k in ('CELLSNUM', 'LAYERS') + (('NODATA_VALUE',) if T == 'int' else ()): t.require(z3.And(tr(new(k)) >= -MAXN - 1, tr(new(k)) <= MAXN))
        if T == 'float': t.require(z3.And(new('NODATA_VALUE') <= FMAX, new('NODATA_VALUE') >= -FMAX))
        t.call(r.method('SetHeader(STRDBL_MAP const&)'), r.ptr(), Ptr(b))
        for s in t.rets:
            t.ensure(s, key_all(lambda k: z3.If(has(t, s0, nb, k), z3.And(has(t, s, r.hnode, k), mval(t, s, r.hnode, k) == mval(t, s0, nb, k)), same_entry(t, s, r.hnode, s0, r.hnode, k))), 'given entries win, every other entry is kept')
            t.ensure(s, z3.And(r.f(s, 'n_cells_') == tr(new('CELLSNUM')), r.f(s, 'n_lyrs_') == tr(new('LAYERS'))), 'cell and layer numbers follow the header')
            t.ensure(s, r.f(s, 'no_data_value_') == (tr(new('NODATA_VALUE')) if T == 'int' else t.E.fround(new('NODATA_VALUE'), FLOAT)), 'the no-data value follows the header')
        t.unchanged([b, nb, r.data, r.onode])

    @task('C20', 'header accessors %s' % T, TUR)
    def _(t, T=T):
        r = Raster(t, T)
        for k in ('XLL', 'YLL', 'XLLCOR', 'YLLCOR'): pass
        h = t.st.w(r.hnode); h.arrs['has'] = (h.arrs['has'][0], z3.Array('any.has', z3.IntSort(), z3.BoolSort()))
        hs = h.arrs['has'][1]
        for k in ('NROWS', 'NCOLS', 'CELLSIZE'): t.require(sel(hs, lit(H[k])))
        for fn, a, b in (('GetXllCenter', 'XLL', 'XLLCOR'), ('GetYllCenter', 'YLL', 'YLLCOR')):
            t.call(r.method(fn + '() const'), r.ptr())
            t.ensure_all(lambda s: s.ret == z3.If(sel(hs, lit(H[a])), r.hv(a), z3.If(sel(hs, lit(H[b])), r.hv(b) + r.dx / 2, NOD)), 'centre, or corner plus half a cell, or no-data')
            t.unchanged(r.objs())
        for fn, v in (('GetRows', r.rows), ('GetCols', r.cols), ('GetCellNumber', r.n), ('GetLayers', r.lyrs), ('GetCellWidth', r.dx)):
            t.call(r.method(fn + '() const'), r.ptr())
            t.ensure_all(lambda s: s.ret == v, 'value'); t.unchanged(r.objs())


@task('C20', 'GetOption', TUR)
def _(t):
    r = Raster(t, 'float'); o = t.struct('result')
    from llvc.stl2 import cstr_obj
    k = z3.Int('key'); kp = cstr_obj(t.E, t.st, k)
    t.call(r.method('GetOption(char const*)'), Ptr(o), r.ptr(), kp)
    s0 = t.st0
    for s in t.rets:
        t.ensure(s, s.mem[o].cells[0][1].a == z3.If(has(t, s0, r.onode, k), mval(t, s0, r.onode, k), 0), 'the stored option, or the empty string')
    t.unchanged(r.objs())


@task('C20', 'GetSrs', TUR)
def _(t):
    from llvc.stl2 import cstr
    r = Raster(t, 'float')
    t.call(r.method('GetSrs()'), r.ptr())
    s0 = t.st0; k = lit('SRS')
    for s in t.rets:
        for s, a in cstr(t.E, s, s.ret): t.ensure(s, a == z3.If(has(t, s0, r.onode, k), mval(t, s0, r.onode, k), 0), 'the text of the stored coordinate system, owned by the raster')
    t.unchanged(r.objs())


@task('C20', 'SubsetPositions::GetHeader', TUR)
def _(t):
    m, node = map_arg(t, 'string', 'double', 'sub'); L = layout(t.mod, 'SubsetPositions')
    o = t.struct('subset'); w = t.st.w(o)
    v = {}
    for f in ('g_srow', 'g_erow', 'g_scol', 'g_ecol'): v[f] = t.int(f); w = t.st.w(o); w.cells[L[f]] = (I32, v[f])
    x, y, cs, nd = t.real('gxll'), t.real('gyll'), t.real('cellsize'), t.real('nodata'); nr = t.int('gnrows')
    t.require(z3.And(0 <= v['g_srow'], v['g_srow'] <= v['g_erow'], v['g_erow'] < nr, 0 <= v['g_scol'], v['g_scol'] <= v['g_ecol'], v['g_ecol'] < MAXN))
    t.call('SubsetPositions::GetHeader(double, double, int, double, double, STRDBL_MAP&)', Ptr(o), x, y, nr, cs, nd, Ptr(m))
    R = z3.ToReal; s0 = t.st0
    want = {'XLLCENTER': x + R(v['g_scol']) * cs, 'YLLCENTER': y + R(nr - 1 - v['g_erow']) * cs, 'NODATA_VALUE': nd, 'NROWS': R(v['g_erow'] - v['g_srow'] + 1), 'NCOLS': R(v['g_ecol'] - v['g_scol'] + 1), 'CELLSIZE': cs,
            'CELLSNUM': z3.RealVal(-1), 'LAYERS': z3.RealVal(-1)}
    for s in t.rets:
        for k, z in want.items(): t.ensure(s, z3.And(has(t, s, node, lit(k)), mval(t, s, node, lit(k)) == z), 'header value ' + k)
        t.ensure(s, key_all(lambda k: z3.Implies(z3.Not(one_of(k, list(want))), same_entry(t, s, node, s0, node, k))), 'every other entry is unchanged')
    t.unchanged([o])


# ---------------------------------------------------------------- C24 data type tables
RDT = ['Unknown', 'UInt8', 'Int8', 'UInt16', 'Int16', 'UInt32', 'Int32', 'UInt64', 'Int64', 'Float', 'Double']
NAME = {'UInt8': 'UINT8', 'Int8': 'INT8', 'UInt16': 'UINT16', 'Int16': 'INT16', 'UInt32': 'UINT32', 'Int32': 'INT32', 'UInt64': 'UINT64', 'Int64': 'INT64', 'Float': 'FLOAT', 'Double': 'DOUBLE'}
ALIAS = {'UInt8': ['UCHAR', 'UINT8', 'GDT_Byte'], 'Int8': ['CHAR', 'INT8', 'GDT_Int8'], 'UInt16': ['UINT16', 'GDT_UInt16'], 'Int16': ['INT16', 'GDT_Int16'], 'UInt32': ['UINT32', 'GDT_UInt32'], 'Int32': ['INT32', 'GDT_Int32'],
         'UInt64': ['UINT64', 'GDT_UInt64'], 'Int64': ['INT64', 'GDT_Int64'], 'Float': ['FLOAT', 'GDT_Float32'], 'Double': ['DOUBLE', 'GDT_Float64']}
GDT = {'Unknown': 0, 'UInt8': 1, 'UInt16': 2, 'Int16': 3, 'UInt32': 4, 'Int32': 5, 'Float': 6, 'Double': 7, 'UInt64': 12, 'Int64': 13}
DEF = {'UInt8': 255, 'Int8': -128, 'UInt16': 65535, 'Int16': -32768, 'UInt32': 4294967295, 'Int32': -2147483648, 'UInt64': 2 ** 64, 'Int64': -2 ** 63}


def table(x, d, other):
    e = other
    for k, v in d.items(): e = z3.If(x == RDT.index(k), v, e)
    return e


@task('C24', 'RasterDataTypeToString', TUR)
def _(t):
    o = t.struct('result'); x = t.int('type')
    t.call('RasterDataTypeToString(int)', Ptr(o), x)
    t.ensure_all(lambda s: s.mem[o].cells[0][1].a == table(x, {k: lit(v) for k, v in NAME.items()}, lit('Unknown')), 'the name of every data type')


def strtype(a):
    e = I(0)
    for k, v in ALIAS.items(): e = z3.If(z3.Or(*[UPPER(a) == lit(x.upper()) for x in v]), RDT.index(k), e)
    return e


@task('C24', 'StringToRasterDataType', TUR)
def _(t):
    so, a = sobj(t, 'stype')
    t.call('StringToRasterDataType(string const&)', Ptr(so))
    t.ensure_all(lambda s: s.ret == strtype(a), 'every accepted name, in any case, denotes its type; any other name none')
    t.unchanged([so])


for k in NAME:
    @task('C24', 'names round trip %s' % k, TUR)
    def _(t, k=k):
        so, a = sobj(t, 'stype', lit(NAME[k]))
        t.call('StringToRasterDataType(string const&)', Ptr(so))
        t.ensure_all(lambda s: s.ret == RDT.index(k), 'the name written for a type is read back as that type')


@task('C24', 'DefaultNoDataByType', TUR)
def _(t):
    x = t.int('type'); t.require(z3.And(x >= 0, x <= 10))
    t.call('DefaultNoDataByType(RasterDataType)', x)
    fl = {k: z3.RealVal(v) for k, v in DEF.items()}
    import fractions
    t.ensure_all(lambda s: s.ret == table(x, dict(fl, Float=FL('MISSINGFLOAT'), Double=FL('MISSINGFLOAT')), NOD), 'the default no-data value of every type lies in the range of that type')


def FL(n): return -FMAX


@task('C24', 'CvtToGDALDataType', TUR)
def _(t):
    x = t.int('type'); t.require(z3.And(x >= 0, x <= 10))
    t.call('CvtToGDALDataType(RasterDataType)', x)
    t.ensure_all(lambda s: z3.Implies(x != RDT.index('Int8'), s.ret == table(x, {k: I(v) for k, v in GDT.items()}, I(0))), 'the GDAL type of the same width, signedness and kind')
    t.ensure_all(lambda s: z3.Implies(x == RDT.index('Int8'), z3.Or(s.ret == 14, s.ret == 1)), 'the GDAL type of an eight bit integer')


@task('C24', 'RasterDataTypeInOptionals', TUR)
def _(t):
    b, nb = map_arg(t, 'string', 'string', 'opts')
    t.call('RasterDataTypeInOptionals(STRING_MAP const&)', Ptr(b))
    s0 = t.st0
    k = lit('DATATYPE_OUT')
    t.ensure_all(lambda s: s.ret == z3.If(has(t, s0, nb, k), strtype(mval(t, s0, nb, k)), 0), 'the requested output type, or unknown')
    t.unchanged([b, nb])


for T in ('float', 'int'):
    @task('C24', 'SetOutDataType(string) %s' % T, TUR)
    def _(t, T=T):
        r = Raster(t, T); so, a = sobj(t, 'strtype')
        t.call(r.method('SetOutDataType(string const&)'), r.ptr(), Ptr(so))
        s0 = t.st0; k = lit('DATATYPE_OUT')
        for s in t.rets:
            t.ensure(s, r.f(s, 'rs_type_out_') == strtype(a), 'the output type is the named type')
            t.ensure(s, z3.And(has(t, s, r.onode, k), mval(t, s, r.onode, k) == table(strtype(a), {n: lit(v) for n, v in NAME.items()}, lit('Unknown'))), 'the option names that type')
            t.ensure(s, key_all(lambda q: z3.Implies(q != k, same_entry(t, s, r.onode, s0, r.onode, q))), 'every other option is kept')


TI = {'UInt8': '_ZTIh', 'UInt16': '_ZTIt', 'Int16': '_ZTIs', 'UInt32': '_ZTIj', 'Int32': '_ZTIi', 'UInt64': '_ZTIm', 'Int64': '_ZTIl', 'Float': '_ZTIf', 'Double': '_ZTId'}
for T, m in list(TI.items()) + [('Int8', '_ZTIc'), ('Int8', '_ZTIa'), ('Unknown', '_ZTIb'), ('Unknown', '_ZTIw')]:
    @task('C24', 'TypeToRasterDataType %s %s' % (T, m), TUR)
    def _(t, T=T, m=m):
        try: p = t.E.glob(t.st, '@' + m)
        except (Unsupported, KeyError): p = Ptr(t.struct('another type'))
        t.call('TypeToRasterDataType(std::type_info const&)', p)
        t.ensure_all(lambda s: s.ret == RDT.index(T), 'the data type of the C++ type')


# ---------------------------------------------------------------- contracts proved above, for use at call sites
class SpecMerge:
    """CopyHeader / CopyStringMap: entries of the source win, every other entry is kept"""
    def apply(self, E, st, a, inst):
        from llvc.stl2 import map_node
        out = []
        for s, na in map_node(E, st, a[0], None):
            for s2, nb in map_node(E, s, a[1], None):
                if na == nb: out.append((s2, None)); continue
                ob = E.info[nb].ty
                hA, hB = s2.mem[na].arrs['has'][1], s2.mem[nb].arrs['has'][1]
                vA, vB = s2.mem[na].arrs[ob.voff][1], s2.mem[nb].arrs[ob.voff][1]
                if isinstance(vA, tuple): raise Unsupported('merge of pointer maps')
                h = z3.Array(E.nm('merged.has'), z3.IntSort(), z3.BoolSort()); v = z3.Array(E.nm('merged.val'), z3.IntSort(), vB.sort().range())
                k = z3.Int(E.nm('k'))
                s2.assume(z3.ForAll([k], sel(h, k) == z3.Or(sel(hA, k), sel(hB, k)), patterns=[sel(h, k)]))
                s2.assume(z3.ForAll([k], sel(v, k) == z3.If(sel(hA, k), sel(vA, k), sel(vB, k)), patterns=[sel(v, k)]))
                w = s2.w(nb); w.arrs['has'] = (w.arrs['has'][0], h); w.arrs[ob.voff] = (w.arrs[ob.voff][0], v)
                E.mark_write(nb, 'has'); E.mark_write(nb, ob.voff)
                out.append((s2, None))
        return out


def merge_specs(t):
    for sig in ('CopyHeader(STRDBL_MAP const&, STRDBL_MAP&)', 'CopyStringMap(STRING_MAP const&, STRING_MAP&)'):
        for nm in list(t.mod.fn_text) + list(t.mod.decl_text):
            if t.mod.dem(nm) in (sig, 'void ' + sig): t.E.specs[t.mod.dem(nm)] = SpecMerge()
