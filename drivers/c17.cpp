// C17: rasters written through GDAL hold every cell, the no-data value, the extent and the coordinate system
#include "common.h"
#include <regex>
#include <fstream>
#define private public
#include "rasters.h"
#include "block.h"
static const char* TYPES[] = {"UNKNOWN", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"};
static const GDALDataType GT[] = {GDT_Unknown, GDT_Byte, GDT_Int8, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_UInt64, GDT_Int64, GDT_Float32, GDT_Float64};
static const double LO[] = {0, 0, -128, 0, -32768, 0, -2147483648., 0, -9223372036854775808., 0, 0};
static const double HI[] = {0, 256, 128, 65536, 32768, 4294967296., 2147483648., 18446744073709551616., 9223372036854775808., 0, 0};   // exclusive
static std::string dir;
struct File { bool ok; int nx, ny, nb; GDALDataType t; double geo[6]; std::string srs; double nd; std::vector<double> v; };
static File readf(const std::string& f) {
    File r; r.ok = false; GDALDataset* d = (GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly); if (!d) return r;
    r.ok = true; r.nx = d->GetRasterXSize(); r.ny = d->GetRasterYSize(); r.nb = d->GetRasterCount(); GDALRasterBand* b = d->GetRasterBand(1); r.t = b->GetRasterDataType();
    for (int i = 0; i < 6; i++) r.geo[i] = i == 1 || i == 5 ? 1 : 0; d->GetGeoTransform(r.geo); r.srs = d->GetProjectionRef(); r.nd = b->GetNoDataValue(); r.v.resize((size_t)r.nx * r.ny);
    if (b->RasterIO(GF_Read, 0, 0, r.nx, r.ny, r.v.data(), r.nx, r.ny, GDT_Float64, 0, 0) != CE_None) r.ok = false;
    GDALClose(d); return r;
}
template <class T> double pickv(Rng& r, int ty, bool flt) {
    double b = r.coin() ? LO[ty] : HI[ty]; if (ty == 0 || ty > 8) b = (double)r.range(-300, 300);
    double x; switch (r.range(0, 5)) { case 0: x = b; break; case 1: x = b - 1; break; case 2: x = b + 1; break; case 3: x = (double)r.range(0, 100); break; case 4: x = flt ? b + r.range(-8, 8) * 0.25 : b; break; default: x = (double)r.range(-200, 300); }
    if (!flt) { if (x > 2147483647.) x = 2147483647.; if (x < -2147483648.) x = -2147483648.; }
    return (double)(T)x;
}
template <class T> void direct(Rng& r) {
    const bool flt = T(0.5) != T(0); int ty = (int)r.range(0, 10), rows = (int)r.range(1, 5), cols = (int)r.range(1, 5), n = rows * cols;
    double nds[] = {-9999, 0, 255, -1, 127, -128, 256, 65535, -32768, flt ? 18446744073709551616. : 5., flt ? -9223372036854775808. : -2., 3, LO[ty], HI[ty]}; double nd = (double)(T)nds[r.range(0, 11)];
    STRDBL_MAP h; h[HEADER_RS_NROWS] = rows; h[HEADER_RS_NCOLS] = cols; h[HEADER_RS_XLL] = r.range(-50, 50) + 0.5; h[HEADER_RS_YLL] = r.range(-50, 50) + 0.25; h[HEADER_RS_CELLSIZE] = r.coin() ? 30. : 0.5; h[HEADER_RS_NODATA] = nd;
    STRING_MAP o; if (ty) o[HEADER_RSOUT_DATATYPE] = TYPES[ty]; if (r.coin()) o[HEADER_RS_SRS] = "LOCAL_CS[\"here\",UNIT[\"metre\",1]]"; if (ty == 0 && r.coin()) o[HEADER_RSOUT_DATATYPE] = "";
    bool legal = r.coin(4) ? false : true; std::vector<T> v(n); bool integral = ty >= 1 && ty <= 8 && !(std::is_same<T, int>::value && ty == 6);
    bool change = integral && (nd < LO[ty] || nd >= HI[ty]);
    for (auto& x : v) { x = r.coin(4) ? (T)nd : (T)pickv<T>(r, ty, flt); if (legal && integral && !(change && x == (T)nd)) while ((double)x < LO[ty] || (double)x >= HI[ty]) x = (T)r.range(0, 100); }
    bool all = true; if (integral) for (auto x : v) if (!(change && std::fabs((double)x - nd) < 1e-6) && ((double)x < LO[ty] || (double)x >= HI[ty])) all = false;
    std::string f = dir + "/a" + str(r.range(0, 3)) + ".tif", tag = std::string(flt ? "float" : "int") + " as " + TYPES[ty] + " rows=" + str(rows) + " cols=" + str(cols) + " nodata=" + str(nd) + " " + arr(v);
    at(tag); long b0 = g_blocks; std::vector<T> before = v; bool ok = WriteSingleGeotiff(f, h, o, v.data()); g_cases++;
    check(g_blocks == b0, str(g_blocks - b0) + " buffers left behind " + tag); check(v == before, "values changed " + tag);
    if (!check(ok == all, std::string(ok ? "written" : "refused") + " " + tag) || !ok) return;
    File w = readf(f); if (!check(w.ok, "unreadable " + tag)) return;
    GDALDataType et = ty ? GT[ty] : (flt ? GDT_Float32 : GDT_Int32); check(w.t == et, "type of the file " + str(w.t) + " " + tag);
    check(w.nx == cols && w.ny == rows && w.nb == 1, "size of the file " + tag);
    double sent = LO[ty] == 0 ? HI[ty] - 1 : LO[ty], end = change ? sent : nd; if (ty != 7 && ty != 8) check(w.nd == end, "no-data of the file " + str(w.nd) + " " + tag);
    double cs = h[HEADER_RS_CELLSIZE], g[6] = {h[HEADER_RS_XLL] - cs / 2, cs, 0, h[HEADER_RS_YLL] + (rows - .5) * cs, 0, -cs}; for (int i = 0; i < 6; i++) check(w.geo[i] == g[i], "geotransform " + str(i) + " is " + str(w.geo[i]) + " not " + str(g[i]) + " " + tag);
    check(o.count(HEADER_RS_SRS) ? w.srs.find("here") != std::string::npos : w.srs.empty(), "coordinate system " + w.srs + " " + tag);
    for (int i = 0; i < n; i++) { double e = integral ? (change && std::fabs((double)v[i] - nd) < 1e-6 ? sent : std::trunc((double)v[i])) : (double)v[i]; check(w.v[i] == e, "cell " + str(i) + " is " + str(w.v[i]) + " not " + str(e) + " " + tag); }
}
template <class T> void whole(Rng& r) {
    Grid<T> g = Grid<T>::make(r, r.coin(), 6); std::string tag = g.tag(); at(tag);
    clsRasterData<T, int>* rs = g.raster(); bool pos = r.coin(); std::vector<int> p = g.pos(); if (pos) { rs->SetCalcPositions(); tag += " positions"; }
    std::string f = dir + "/w" + str(r.range(0, 2)) + ".tif"; long b0 = g_blocks; at(tag); bool ok = r.coin() ? rs->OutputToFile(f) : rs->OutputFileByGdal(f); g_cases++; check(g_blocks == b0, "buffers left behind " + tag);
    if (check(ok, "not written " + tag)) for (int l = 0; l < g.lyrs; l++) {
        std::string fl = g.two ? f.substr(0, f.size() - 4) + "_" + str(l + 1) + ".tif" : f; File w = readf(fl); if (!check(w.ok && w.nx == g.cols && w.ny == g.rows, "file of layer " + str(l + 1) + " " + tag)) continue;
        std::set<int> in(p.begin(), p.end());
        for (int q = 0; q < g.rows * g.cols; q++) { double e = pos && !in.count(q) ? g.nd : g.at(q / g.cols, q % g.cols, l); check(w.v[q] == e, "layer " + str(l + 1) + " cell " + str(q) + " is " + str(w.v[q]) + " not " + str(e) + " " + tag); }
        unlink(fl.c_str());
    }
    delete rs;
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed); GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler);
    char t[] = "/tmp/drvXXXXXX"; if (!mkdtemp(t)) return 3; dir = t;
    while (g_cases < cases) { direct<float>(r); direct<int>(r); if (g_cases % 3 == 0) { whole<float>(r); whole<int>(r); } }
    long b0 = g_blocks; { float v[1] = {1}; STRDBL_MAP h; h[HEADER_RS_NROWS] = 1; h[HEADER_RS_NCOLS] = 1; h[HEADER_RS_XLL] = 0; h[HEADER_RS_YLL] = 0; h[HEADER_RS_CELLSIZE] = 1; h[HEADER_RS_NODATA] = -9999; STRING_MAP o; o[HEADER_RSOUT_DATATYPE] = "INT16";
        std::ofstream(dir + "/plain").put('x'); at("a folder that cannot be made"); check(!WriteSingleGeotiff(dir + "/plain/x.tif", h, o, v), "written into a file"); check(g_blocks == b0, "buffers left behind when the file cannot be created"); }
    for (int i = 0; i < 4; i++) { unlink((dir + "/a" + str(i) + ".tif").c_str()); unlink((dir + "/a" + str(i) + ".tif.aux.xml").c_str()); } unlink((dir + "/plain").c_str()); rmdir(dir.c_str());
    return done();
}
