// C18: rasters read through GDAL
#include "common.h"
#include <regex>
#include <fstream>
#define private public
#include "rasters.h"
#include "block.h"
static const GDALDataType GT[] = {GDT_Byte, GDT_Int8, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_UInt64, GDT_Int64, GDT_Float32, GDT_Float64, GDT_CFloat32};
static const RasterDataType RT[] = {RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32, RDT_Int32, RDT_UInt64, RDT_Int64, RDT_Float, RDT_Double, RDT_Unknown};
static const double LO[] = {0, -128, 0, -32768, 0, -2147483648., 0, -9223372036854775808., -1e6, -1e6, -100};
static const double HI[] = {255, 127, 65535, 32767, 4294967295., 2147483647., 18446744073709549568., 9223372036854774784., 1e6, 1e6, 100};
static const double DEFND[] = {255, -128, 65535, -32768, 4294967295., -2147483648., 18446744073709551615., -9223372036854775808., (double)-FLT_MAX, (double)-FLT_MAX, 0};
template <class T> void one(Rng& r) {
    const bool flt = T(0.5) != T(0); int k = (int)r.range(0, 10), nx = (int)r.range(1, 6), ny = (int)r.range(1, 6), n = nx * ny; bool small = r.coin(3);
    std::vector<double> v(n); for (auto& x : v) { double lo = LO[k], hi = HI[k]; if (!flt) { lo = std::max(lo, -2147483648.); hi = std::min(hi, 2147483647.); } if (small) { lo = std::max(lo, -100.); hi = std::min(hi, 127.); }
        switch (r.range(0, 4)) { case 0: x = lo; break; case 1: x = hi; break; case 2: x = std::max(lo, -7.); break; default: x = (double)r.range((long long)std::max(lo, -1000.), (long long)std::min(hi, 1000.)); } if (k >= 8 && k < 10) x += 0.25 * (double)r.range(0, 3) - (x == hi); }
    bool hasnd = r.coin(); double nd = k == 0 || k == 2 || k == 4 || k == 6 ? (double)r.range(0, 20) : (double)r.range(-20, 20); std::string f = "/vsimem/in.tif", tag = std::string(flt ? "float" : "int") + " of " + GDALGetDataTypeName(GT[k]) + " rows=" + str(ny) + " cols=" + str(nx) + (hasnd ? " nodata=" + str(nd) : "") + " " + arr(v); at(tag);
    double cs = r.coin() ? 30. : 0.5, gt[6] = {r.range(-50, 50) + 0.5, cs, 0, r.range(-50, 50) + 0.25, 0, -cs}; bool srs = r.coin();
    GDALDataset* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(), nx, ny, 1, GT[k], nullptr); if (!d) { check(false, "setup"); return; }
    GDALRasterBand* b = d->GetRasterBand(1); if (hasnd) { if (k == 6) b->SetNoDataValueAsUInt64((uint64_t)nd); else if (k == 7) b->SetNoDataValueAsInt64((int64_t)nd); else b->SetNoDataValue(nd); } d->SetGeoTransform(gt); if (srs) d->SetProjection("LOCAL_CS[\"here\",UNIT[\"metre\",1]]");
    if (b->RasterIO(GF_Write, 0, 0, nx, ny, v.data(), nx, ny, GDT_Float64, 0, 0) != CE_None) { check(false, "setup"); return; } GDALClose(d);
    STRDBL_MAP h; h["OTHER"] = 3.; T* val = nullptr; RasterDataType t = RDT_Unknown; std::string s = "before"; long b0 = g_blocks; bool ok = ReadRasterFileByGdal(f, h, val, t, s); g_cases++;
    check(g_blocks == b0, str(g_blocks - b0) + " buffers left behind " + tag);
    if (!check(ok == (k != 10), std::string(ok ? "read" : "refused") + " " + tag) || !ok) { check(ok || val == nullptr, "values of a refused file " + tag); return; }
    for (int i = 0; i < n; i++) check(val[i] == (T)v[i], "cell " + str(i) + " is " + str(val[i]) + " not " + str(v[i]) + " " + tag);
    check(t == RT[k] || (k == 0 && t == RDT_Int8 && *std::max_element(v.begin(), v.end()) <= 127), "type " + str(t) + " " + tag); RasterDataType rt = t;
    auto is = [&](const char* key, double e) { check(h.count(key) && h[key] == e, std::string(key) + " is " + str(h[key]) + " not " + str(e) + " " + tag); };
    is("NCOLS", nx); is("NROWS", ny); is("CELLSIZE", cs); is("XLLCENTER", gt[0] + cs / 2); is("YLLCENTER", gt[3] - (ny - .5) * cs); is("LAYERS", 1); is("CELLSNUM", n); is("OTHER", 3); check(h.size() == 9, "header entries " + str(h.size()) + " " + tag);
    if (k != 6 && k != 7) is("NODATA_VALUE", hasnd ? nd : (rt == RDT_Int8 ? -128 : DEFND[k])); check(srs ? s.find("here") != std::string::npos : s.empty(), "coordinate system " + s + " " + tag);
    Release1DArray(val);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed); GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler);
    { STRDBL_MAP h; float* v = nullptr; RasterDataType t; std::string s; long b0 = g_blocks;
      auto text = [](const char* n, const std::string& c) { VSILFILE* f = VSIFOpenL(n, "wb"); VSIFWriteL(c.data(), 1, c.size(), f); VSIFCloseL(f); };
      at("no file"); check(!ReadRasterFileByGdal("/vsimem/none.tif", h, v, t, s) && !v, "read a missing file");
      at("VRT without a band"); text("/vsimem/e.vrt", "<VRTDataset rasterXSize=\"2\" rasterYSize=\"2\"></VRTDataset>"); check(!ReadRasterFileByGdal("/vsimem/e.vrt", h, v, t, s) && !v, "read a file without bands");
      const char* ts[] = {"Byte", "Int8", "UInt16", "Int16", "UInt32", "Int32", "UInt64", "Int64", "Float32", "Float64"};
      for (auto n : ts) { at(std::string("VRT of a missing file, ") + n); text("/vsimem/m.vrt", std::string("<VRTDataset rasterXSize=\"2\" rasterYSize=\"2\"><VRTRasterBand dataType=\"") + n + "\" band=\"1\"><SimpleSource><SourceFilename relativeToVRT=\"0\">/vsimem/none.tif</SourceFilename><SourceBand>1</SourceBand><SourceProperties RasterXSize=\"2\" RasterYSize=\"2\" DataType=\"" + n + "\"/><SrcRect xOff=\"0\" yOff=\"0\" xSize=\"2\" ySize=\"2\"/><DstRect xOff=\"0\" yOff=\"0\" xSize=\"2\" ySize=\"2\"/></SimpleSource></VRTRasterBand></VRTDataset>");
        check(!ReadRasterFileByGdal("/vsimem/m.vrt", h, v, t, s) && !v, std::string("read unreadable cells ") + n); check(g_blocks == b0, std::string("buffers left behind by an unreadable file ") + n); } }
    while (g_cases < cases) { one<float>(r); one<int>(r); }
    return done();
}
