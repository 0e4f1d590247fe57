"""Assumed contracts of the GDAL calls that write and read one band; what is asked of GDAL is recorded in ghost state."""
import z3
from .engine import (Ptr, NULL, FnPtr, ObjSt, Unsupported, PathEnd, I, simp, ival)
from .irparse import INT, PTR, FLOAT, DOUBLE, Ty
from .stl import model, note
from .stl2 import lit, sget, sset, cstr, StrV, cstr_obj

# slots of the virtual functions in GDAL 3.8's tables (byte offsets); the library is not part of /repo
VT = {'GDALRasterBand': {224: 'SetNoDataValue', 128: 'GetNoDataValue', 152: 'GetMinimum', 160: 'GetMaximum', 320: 'ComputeRasterMinMax'},
      'GDALDataset': {152: 'SetGeoTransform', 144: 'GetGeoTransform'}}
# GDALDataType code -> (element type, unsigned)
GDT = {1: (INT[8], True), 14: (INT[8], False), 2: (INT[16], True), 3: (INT[16], False), 4: (INT[32], True), 5: (INT[32], False),
       12: (INT[64], True), 13: (INT[64], False), 6: (FLOAT, False), 7: (DOUBLE, False)}


def log(st, *ev): st.ghost['gdal'] = st.ghost.get('gdal', ()) + (ev,)
def events(st, k): return [e for e in st.ghost.get('gdal', ()) if e[0] == k]


def fork(E, st, c):
    c = simp(c)
    out = []
    if not z3.is_false(c) and E.feasible(st, c):
        s = st.clone(); s.assume(c); out.append((s, True))
    if not z3.is_true(c) and E.feasible(st, z3.Not(c)):
        s = st.clone(); s.assume(z3.Not(c)); out.append((s, False))
    return out


def new_cpp(E, st, cls, **attrs):
    vt = E.new_obj(st, 'vtable of ' + cls, 'const')
    for o, n in VT[cls].items(): st.w(vt).cells[o] = (PTR, FnPtr('@gdal.%s.%s' % (cls, n)))
    oid = E.new_obj(st, cls, 'gdal')
    st.w(oid).cells[0] = (PTR, Ptr(vt))
    E.__dict__.setdefault('_gdal', {})[oid] = dict(cls=cls, **attrs)
    return oid


def the(E, st, p, inst, cls):
    """the live GDAL object p designates"""
    out = []
    for s, oid in E.resolve(st, p, inst):
        if oid == 0 or oid not in s.mem or E.__dict__.get('_gdal', {}).get(oid, {}).get('cls') != cls:
            E.oblige(s, z3.BoolVal(False), 'pre-GDAL: %s object' % cls, inst); continue
        if not s.mem[oid].alive:
            E.oblige(s, z3.BoolVal(False), 'pre-GDAL: %s used after GDALClose' % cls, inst); continue
        out.append((s, oid, E._gdal[oid]))
    return out


@model(r'@?GetGDALDriverManager')
def m_mgr(E, st, a, inst, sig):
    note(E, 'GetGDALDriverManager: the driver manager')
    if not hasattr(E, '_gdalmgr'):
        E._gdalmgr = E.new_obj(st, 'GDALDriverManager', 'gdal')
    if E._gdalmgr not in st.mem: st.mem[E._gdalmgr] = ObjSt()
    return [(st, Ptr(E._gdalmgr))]


@model(r'GDALDriverManager::GetDriverByName\(|@?GDALGetDriverByName')
def m_drv(E, st, a, inst, sig):
    note(E, 'GDALDriverManager::GetDriverByName: a driver or null')
    out = []
    for s, x in cstr(E, st, a[1], inst):
        n = s.clone(); log(n, 'driver', x, False); out.append((n, NULL))
        d = E.new_obj(s, 'GDALDriver', 'gdal')
        log(s, 'driver', x, True)
        out.append((s, Ptr(d)))
    return out


@model(r'GDALDriver::Create\(')
def m_create(E, st, a, inst, sig):
    note(E, 'GDALDriver::Create: a data set of the given size, bands and type, or null')
    out = []
    E.oblige(st, z3.And(a[2] >= 1, a[3] >= 1, a[4] >= 1), 'pre-GDALDriver::Create: a positive size', inst)
    for s, x in cstr(E, st, a[1], inst):
        n = s.clone(); log(n, 'create', x, a[2], a[3], a[4], a[5], False); out.append((n, NULL))
        band = new_cpp(E, s, 'GDALRasterBand', nx=a[2], ny=a[3], type=a[5])
        ds = new_cpp(E, s, 'GDALDataset', nx=a[2], ny=a[3], nb=a[4], type=a[5], band=band)
        log(s, 'create', x, a[2], a[3], a[4], a[5], True)
        out.append((s, Ptr(ds)))
    return out


@model(r'@?GDALOpen$|GDALOpen\(')
def m_open(E, st, a, inst, sig):
    note(E, 'GDALOpen: a data set with one band, or null')
    out = []
    h = getattr(E, 'gdal_file', None)
    if h is None: raise Unsupported('GDALOpen without a file')
    for s, x in cstr(E, st, a[0], inst):
        n = s.clone(); log(n, 'open', x, a[1], False); out.append((n, NULL))
        band = new_cpp(E, s, 'GDALRasterBand', **h)
        ds = new_cpp(E, s, 'GDALDataset', band=band, **h)
        log(s, 'open', x, a[1], True)
        out.append((s, Ptr(ds)))
    return out


@model(r'GDALDataset::GetRasterBand\(int\)')
def m_band(E, st, a, inst, sig):
    note(E, 'GDALDataset::GetRasterBand: band k of a data set with at least k bands')
    out = []
    for s, d, at in the(E, st, a[0], inst, 'GDALDataset'):
        E.oblige(s, a[1] == 1, 'pre-GetRasterBand: the first band', inst)
        for s2 in fork(E, s, at['nb'] >= 1): out.append((s2[0], Ptr(at['band']) if s2[1] else NULL))
    return out


@model(r'GDALRasterBand::Get([XY]Size|RasterDataType)\(')
def m_size(E, st, a, inst, sig):
    note(E, 'GDALRasterBand: size and type of the band')
    k = 'nx' if 'XSize' in sig else 'ny' if 'YSize' in sig else 'type'
    return [(s, at[k]) for s, d, at in the(E, st, a[0], inst, 'GDALRasterBand')]


@model(r'GDALRasterBand::RasterIO\(')
def m_io(E, st, a, inst, sig):
    note(E, 'GDALRasterBand::RasterIO: moves the whole region between the band and the buffer, or fails')
    out = []
    this, flag, x0, y0, nx, ny, buf, bx, by, ty, ps, ls = a[:12]
    f = ival(simp(flag)); tc = ival(simp(ty))
    if tc is None:
        for k in GDT:
            if E.entails(st, ty == k): tc = k
    if f is None or tc not in GDT: raise Unsupported('RasterIO of an unknown type %s' % ty)
    et, uns = GDT[tc]
    for s, b, at in the(E, st, this, inst, 'GDALRasterBand'):
        E.oblige(s, z3.And(x0 == 0, y0 == 0, nx == at['nx'], ny == at['ny'], bx == nx, by == ny, ps == 0, ls == 0), 'pre-RasterIO: the whole band', inst)
        for s2, oid in E.resolve(s, buf, inst):
            if oid == 0: E.oblige(s2, z3.BoolVal(False), 'pre-RasterIO: a buffer', inst); continue
            if not s2.mem[oid].alive: E.oblige(s2, z3.BoolVal(False), 'pre-RasterIO: a live buffer', inst); continue
            E.type_heap(s2, oid, et)
            i, off = E.norm(s2, buf, oid)
            E.oblige(s2, z3.And(i == 0, bx * by <= E.obj_len(s2, oid)), 'pre-RasterIO: room for every cell', inst)
            bad = s2.clone(); log(bad, 'io', f, tc, False); out.append((bad, I(3)))
            if f == 1:
                if off not in s2.mem[oid].arrs: raise Unsupported('RasterIO of ' + E.info[oid].name)
                t, c = s2.mem[oid].arrs[off]
                E.oblige(s2, z3.BoolVal(t.k == et.k and getattr(t, 'bits', 0) == getattr(et, 'bits', 0)), 'pre-RasterIO: buffer of the type named', inst)
                log(s2, 'io', f, tc, True, c)
            else:
                fc = at.get('content')
                # the file's content in its own type; reading it as that type is exact
                E.oblige(s2, ty == at['type'], 'pre-RasterIO: read in the type of the band', inst)
                s2.w(oid).arrs[0] = (et, fc); E.mark_write(oid, 0)
                log(s2, 'io', f, tc, True)
            out.append((s2, I(0)))
    return out


@model(r'@gdal\.GDALRasterBand\.SetNoDataValue')
def m_setnd(E, st, a, inst, sig):
    note(E, 'GDALRasterBand::SetNoDataValue: records the value; cells of 0 written before it may be taken for empty ones and lost (GTiff)')
    out = []
    for s, b, at in the(E, st, a[0], inst, 'GDALRasterBand'):
        evs = list(s.ghost.get('gdal', ()))
        for k, e in enumerate(evs):
            if e[0] == 'io' and e[1] == 1 and e[3]:
                c2 = z3.Const('cells.after.nodata!%d' % next(E.names), e[4].sort()); q = z3.Int('q!nd')
                s.assume(z3.ForAll([q], z3.Implies(z3.Select(e[4], q) != 0, z3.Select(c2, q) == z3.Select(e[4], q)), patterns=[z3.Select(c2, q)]))
                evs[k] = e[:4] + (c2,)
        s.ghost['gdal'] = tuple(evs)
        log(s, 'nodata', a[1]); out.append((s, I(0)))
    return out


@model(r'@gdal\.GDALRasterBand\.GetNoDataValue')
def m_getnd(E, st, a, inst, sig):
    note(E, 'GDALRasterBand::GetNoDataValue: the value recorded in the file and whether there is one')
    out = []
    for s, b, at in the(E, st, a[0], inst, 'GDALRasterBand'):
        for s2 in E.store(s, a[1], INT[32], at["hasnd"], inst): out.append((s2, at['nodata']))
    return out


@model(r'@gdal\.GDALRasterBand\.Get(Minimum|Maximum)')
def m_minmax(E, st, a, inst, sig):
    note(E, 'GDALRasterBand::GetMinimum/GetMaximum: a value and whether it is known')
    out = []
    k = 'min' if 'Minimum' in sig else 'max'
    for s, b, at in the(E, st, a[0], inst, 'GDALRasterBand'):
        for s2, oid in E.resolve(s, a[1], inst):
            if oid == 0: out.append((s2, at[k])); continue
            for s3 in E.store(s2, a[1], INT[32], at["has" + k], inst): out.append((s3, at[k]))
    return out


@model(r'@gdal\.GDALRasterBand\.ComputeRasterMinMax')
def m_cmm(E, st, a, inst, sig):
    note(E, 'GDALRasterBand::ComputeRasterMinMax: the least and greatest value other than the no-data value, or a failure and zeros')
    out = []
    for s, b, at in the(E, st, a[0], inst, 'GDALRasterBand'):
        E.oblige(s, a[1] == 0, 'pre-ComputeRasterMinMax: exact', inst)
        for s2, some in fork(E, s, at['anyvalid']):
            for s3, oid in E.resolve(s2, a[2], inst):
                if oid == 0: E.oblige(s3, z3.BoolVal(False), 'pre-ComputeRasterMinMax: two values', inst); continue
                E.oblige(s3, z3.And(E.norm(s3, a[2], oid)[0] == 0, E.obj_len(s3, oid) >= 2), 'pre-ComputeRasterMinMax: room for two values', inst)
                c = s3.mem[oid].arrs.get(0, (DOUBLE, z3.K(z3.IntSort(), z3.RealVal(0))))[1]
                c = z3.Store(z3.Store(c, 0, at['cmin'] if some else z3.RealVal(0)), 1, at['cmax'] if some else z3.RealVal(0))
                s3.w(oid).arrs[0] = (DOUBLE, c); E.mark_write(oid, 0)
                out.append((s3, I(0 if some else 3)))
    return out


@model(r'@gdal\.GDALDataset\.(Set|Get)GeoTransform')
def m_gt(E, st, a, inst, sig):
    note(E, 'GDALDataset::SetGeoTransform/GetGeoTransform: the six coefficients')
    out = []
    for s, d, at in the(E, st, a[0], inst, 'GDALDataset'):
        for s2, oid in E.resolve(s, a[1], inst):
            if oid == 0: E.oblige(s2, z3.BoolVal(False), 'pre-GeoTransform: six values', inst); continue
            E.oblige(s2, z3.And(E.norm(s2, a[1], oid)[0] == 0, E.obj_len(s2, oid) >= 6), 'pre-GeoTransform: room for six values', inst)
            if '.Set' in sig:
                t, c = s2.mem[oid].arrs[0]
                log(s2, 'geo', *[simp(z3.Select(c, k)) for k in range(6)])
            else:
                t, c = s2.mem[oid].arrs.get(0, (DOUBLE, z3.K(z3.IntSort(), z3.RealVal(0))))
                for k in range(6): c = z3.Store(c, k, at['geo'][k])
                s2.w(oid).arrs[0] = (DOUBLE, c); E.mark_write(oid, 0)
            out.append((s2, I(0)))
    return out


@model(r'GDALDataset::SetProjection\(')
def m_setpr(E, st, a, inst, sig):
    note(E, 'GDALDataset::SetProjection: records the text')
    out = []
    for s, d, at in the(E, st, a[0], inst, 'GDALDataset'):
        for s2, x in cstr(E, s, a[1], inst): log(s2, 'srs', x); out.append((s2, I(0)))
    return out


@model(r'GDALDataset::GetProjectionRef\(')
def m_getpr(E, st, a, inst, sig):
    note(E, 'GDALDataset::GetProjectionRef: the text recorded in the file')
    return [(s, cstr_obj(E, s, at['srs'], None)) for s, d, at in the(E, st, a[0], inst, 'GDALDataset')]


@model(r'@?GDALClose')
def m_close(E, st, a, inst, sig):
    note(E, 'GDALClose: ends the use of a data set and its band')
    out = []
    for s, d, at in the(E, st, a[0], inst, 'GDALDataset'):
        s.w(d).alive = False; s.w(at['band']).alive = False
        log(s, 'close'); out.append((s, I(0) if inst.ty.k == 'int' else None))
    return out


@model(r'@?(CPLMalloc|VSIMalloc)')
def m_cplmalloc(E, st, a, inst, sig):
    note(E, 'CPLMalloc: fresh disjoint block of the requested size (the process ends if there is none)')
    return E.malloc(st, a[0], 'heap', 'throw', inst)


@model(r'@?(CPLFree|VSIFree)')
def m_cplfree(E, st, a, inst, sig):
    note(E, 'CPLFree: releases a block of CPLMalloc')
    return [(s, None) for s in E.free(st, a[0], 'heap', inst)]


@model(r'@?CSLDestroy')
def m_csl(E, st, a, inst, sig):
    out = []
    for s, oid in E.resolve(st, a[0], inst):
        if oid: raise Unsupported('CSLDestroy of a list')
        out.append((s, None))
    return out


@model(r'@?CPLGetLastErrorMsg')
def m_err(E, st, a, inst, sig):
    note(E, 'CPLGetLastErrorMsg: some text')
    return [(st, cstr_obj(E, st, z3.Int(E.nm('gdalerror')), None))]
