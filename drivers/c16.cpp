// C16: rasters written as ASC grids hold the header and every cell of every layer
#include "common.h"
#include <fstream>
#include <sstream>
#define private public
#include "rasters.h"
#include "block.h"
static std::string dir;
static std::string six(double x) { char b[64]; snprintf(b, sizeof b, "%.6g", x); return b; }
static void file(const std::string& f, int rows, int cols, double xll, double yll, double dx, double nd, const std::vector<std::string>& want, const std::string& tag) {
    std::ifstream in(f); if (!check((bool)in, "no file " + f + " " + tag)) return;
    const char* K[] = {HEADER_RS_NCOLS, HEADER_RS_NROWS, HEADER_RS_XLL, HEADER_RS_YLL, HEADER_RS_CELLSIZE, HEADER_RS_NODATA}; double V[] = {(double)cols, (double)rows, xll, yll, dx, nd}; std::string line;
    for (int i = 0; i < 6; i++) { std::getline(in, line); std::istringstream ls(line); std::string k, v, more; ls >> k >> v; check(k == K[i], "header line " + str(i) + " is " + line + " " + tag);
        if (i < 5) check(strtod(v.c_str(), nullptr) == V[i], "header " + k + " is " + v + " not " + str(V[i]) + " " + tag); else check(v == six(nd), "no-data in the header is " + v + " not " + six(nd) + " " + tag); check(!(ls >> more), "more in the header line " + line); }
    for (int i = 0; i < rows; i++) { if (!check((bool)std::getline(in, line), "row " + str(i) + " missing " + tag)) return; std::istringstream ls(line); std::string v; int j = 0;
        while (ls >> v) { if (j < cols) check(v == want[(size_t)i * cols + j], f.substr(dir.size()) + " cell " + str(i) + "," + str(j) + " is " + v + " not " + want[(size_t)i * cols + j] + " " + tag); j++; }
        check(j == cols, "row " + str(i) + " has " + str(j) + " values " + tag); }
    std::string v; check(!(in >> v), "values after the last row " + tag);
}
template <class T> void one(Rng& r) {
    Grid<T> g = Grid<T>::make(r, r.coin(), 6); if (r.coin(3)) { g.xll = 39472193.375 + r.range(0, 9); g.yll = -1234567.125; } if (r.coin(4)) g.dx = 92.6612345;
    if (r.coin(3)) for (auto& x : g.v) if (x != g.nd && r.coin(4)) { x = (T)(r.range(-100000000, 100000000) * (T(0.5) != T(0) ? 0.125 : 1)); if (x == g.nd) x = (T)1; }
    const char* ext[] = {".asc", ".ASC", ".Asc"}; std::string e = ext[r.range(0, 2)], f = dir + "/sub/a" + str(r.range(0, 2)) + e, tag = g.tag(); int n = g.rows * g.cols; std::vector<std::string> w(n);
    if (r.coin(3)) { std::ofstream o(f); o << "left over\n"; }
    if (!g.two && r.coin()) {
        STRDBL_MAP h; h[HEADER_RS_NROWS] = g.rows; h[HEADER_RS_NCOLS] = g.cols; h[HEADER_RS_XLL] = g.xll; h[HEADER_RS_YLL] = g.yll; h[HEADER_RS_CELLSIZE] = g.dx; h[HEADER_RS_NODATA] = g.nd; std::vector<T> v = g.v; at("WriteSingleAsc " + tag);
        bool ok = r.coin() ? WriteSingleAsc(f, h, v.data()) : WriteRasterToFile(f, h, STRING_MAP(), v.data()); g_cases++; check(v == g.v, "values changed " + tag); if (!check(ok, "not written " + tag)) return;
        for (int q = 0; q < n; q++) w[q] = six((double)g.v[q]); if (sizeof(T) == 4 && T(0.5) == T(0)) for (int q = 0; q < n; q++) w[q] = str((long)g.v[q]);
        file(f, g.rows, g.cols, g.xll, g.yll, g.dx, g.nd, w, "WriteSingleAsc " + tag); unlink(f.c_str()); return;
    }
    clsRasterData<T, int>* rs = g.raster(); bool pos = r.coin(); std::vector<int> p = g.pos(); std::set<int> in(p.begin(), p.end()); if (pos) { rs->SetCalcPositions(); tag += " positions"; } at(tag);
    long b0 = g_blocks; bool ok = r.coin() ? rs->OutputToFile(f) : rs->OutputAscFile(f); g_cases++; check(g_blocks == b0, "buffers left behind " + tag);
    if (check(ok, "not written " + tag)) for (int l = 0; l < g.lyrs; l++) { std::string fl = g.two ? f.substr(0, f.size() - 4) + "_" + str(l) + e : f;
        for (int q = 0; q < n; q++) { T x = pos && !in.count(q) ? g.nd : g.at(q / g.cols, q % g.cols, l); w[q] = T(0.5) == T(0) ? str((long)x) : six((double)x); }
        file(fl, g.rows, g.cols, g.xll, g.yll, g.dx, g.nd, w, "layer " + str(l) + " " + tag); unlink(fl.c_str()); }
    delete rs; unlink(f.c_str());
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed); GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler);
    char t[] = "/tmp/drvXXXXXX"; if (!mkdtemp(t)) return 3; dir = t; mkdir((dir + "/sub").c_str(), 0777);
    while (g_cases < cases) { one<float>(r); one<int>(r); }
    { float v[1] = {1}; STRDBL_MAP h; h[HEADER_RS_NROWS] = 1; h[HEADER_RS_NCOLS] = 1; h[HEADER_RS_XLL] = 0; h[HEADER_RS_YLL] = 0; h[HEADER_RS_CELLSIZE] = 1; h[HEADER_RS_NODATA] = -9999;
      std::ofstream(dir + "/plain").put('x'); at("a folder that cannot be made"); check(!WriteSingleAsc(dir + "/plain/x.asc", h, v), "written into a file");
      at("no folder"); STRING_MAP o; for (const char* e : {"tif", "TIFF", "img"}) { std::string f = dir + "/sub/g." + e; check(WriteRasterToFile(f, h, o, v), std::string("not written as ") + e); std::string g = dir + "/sub/g.tif"; GDALDataset* d = (GDALDataset*)GDALOpen(g.c_str(), GA_ReadOnly); check(d != nullptr, std::string("no GeoTIFF for ") + e); if (d) GDALClose(d); unlink(g.c_str()); } }
    unlink((dir + "/plain").c_str()); rmdir((dir + "/sub").c_str()); rmdir(dir.c_str());
    return done();
}
