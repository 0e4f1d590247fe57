// C25: whole-raster edits
#include "rasters.h"
template <class T> void run(Rng& r) {
    g_cases++; bool two = r.coin(); Grid<T> g = Grid<T>::make(r, two); bool pos = r.coin(); at(g.tag()); auto* rs = g.raster();
    if (pos) rs->SetCalcPositions();
    std::string tag = (pos ? "positions " : "full ") + g.tag();
    auto cmp = [&](const std::vector<T>& e, const char* w) { for (int i = 0; i < g.rows * g.cols; i++) { if (pos && !g.valid(i / g.cols, i % g.cols)) continue; for (int l = 0; l < g.lyrs; l++) {
        T x = rs->GetValue(i / g.cols, i % g.cols, l + 1), y = e[(size_t)i * g.lyrs + l];
        check(x == y, std::string(w) + " cell " + str(i) + " layer " + str(l + 1) + " = " + str(x) + " expected " + str(y) + " " + tag); } } };
    if (r.coin()) {
        STRDBL_MAP before = rs->GetRasterHeader();
        T nv = r.coin() ? (T)r.range(-6, 6) : (T)-32768; std::vector<T> e = g.v; for (auto& x : e) if (x == g.nd) x = nv;
        rs->ReplaceNoData(nv); tag = "replace " + str(nv) + " " + tag; cmp(e, "ReplaceNoData");
        check(rs->GetNoDataValue() == nv, "no-data value " + str(rs->GetNoDataValue()) + " " + tag);
        STRDBL_MAP h = rs->GetRasterHeader(); before["NODATA_VALUE"] = nv; check(h == before, "header after ReplaceNoData " + tag);
        check(rs->GetValue(-1, 0, 1) == nv && rs->GetValue(g.rows, 0, 1) == nv, "value outside the grid " + tag);
    } else {
        std::map<int, T> m; std::string mt; for (int k = (int)r.range(0, 8); k > 0; k--) { int a = (int)r.range(-12, 12); T b = (T)r.range(-50, 50); m[a] = b; }
        if (r.coin()) m[(int)g.nd] = (T)77; std::map<int, T> given = m;
        for (auto& p : m) mt += str(p.first) + ":" + str(p.second) + " ";
        std::vector<T> e = g.v; for (auto& x : e) { auto it = m.find((int)x); x = it == m.end() ? g.nd : it->second; }
        rs->Reclassify(m); tag = "classes " + mt + tag; cmp(e, "Reclassify"); check(m == given, "the class table changed " + tag);
        check(rs->GetNoDataValue() == g.nd, "no-data value changed " + tag);
    }
    delete rs;
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { run<float>(r); run<int>(r); }
    return done();
}
