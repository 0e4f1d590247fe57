// C10: reading and writing cells
#include "rasters.h"
template <class T, class R> void model(Rng& r, Grid<T>& g, R* rs, bool pos, std::vector<int> p, const std::string& tag) {
    auto stored = [&](int row, int col) { return row >= 0 && row < g.rows && col >= 0 && col < g.cols && (!pos || std::binary_search(p.begin(), p.end(), row * g.cols + col)); };
    auto all = [&](const std::string& when) {
        for (int row = -1; row <= g.rows; row++) for (int col = -1; col <= g.cols; col++) for (int l = 0; l <= g.lyrs + 1; l++) {
            T want = stored(row, col) && l >= 1 && l <= g.lyrs ? g.at(row, col, l - 1) : g.nd;
            T got = rs->GetValue(row, col, l);
            if (!check(got == want, "GetValue(" + str(row) + "," + str(col) + "," + str(l) + ") = " + str(got) + " expected " + str(want) + " " + when + " " + tag)) return; }
        int n = pos ? (int)p.size() : g.rows * g.cols;
        for (int i = -1; i <= n; i++) for (int l = 0; l <= g.lyrs + 1; l++) {
            T want = g.nd; if (i >= 0 && i < n && l >= 1 && l <= g.lyrs) { int q = pos ? p[i] : i; want = g.at(q / g.cols, q % g.cols, l - 1); }
            if (!check(rs->GetValueByIndex(i, l) == want, "GetValueByIndex(" + str(i) + "," + str(l) + ") = " + str(rs->GetValueByIndex(i, l)) + " expected " + str(want) + " " + when + " " + tag)) return; }
        for (int row = -1; row <= g.rows; row++) for (int col = -1; col <= g.cols; col++) {
            T* vs = nullptr; bool own = r.coin(); if (own) { Initialize1DArray(g.lyrs, vs, (T)77); }
            rs->GetValue(row, col, vs); bool in = row >= 0 && row < g.rows && col >= 0 && col < g.cols;
            if (!check((vs != nullptr) == in, "GetValue(...,values) null " + str(row) + "," + str(col) + " " + tag)) return;
            if (vs) { for (int l = 0; l < g.lyrs; l++) { T want = stored(row, col) ? g.at(row, col, l) : g.nd; if (!check(vs[l] == want, "GetValue(" + str(row) + "," + str(col) + ",values)[" + str(l) + "] = " + str(vs[l]) + " expected " + str(want) + " " + tag)) return; } Release1DArray(vs); }
        }
        for (int i = -1; i <= n; i++) { T* vs = nullptr; if (r.coin()) Initialize1DArray(g.lyrs, vs, (T)77); rs->GetValueByIndex(i, vs);
            if (!check((vs != nullptr) == (i >= 0 && i < n), "GetValueByIndex(i,values) null " + str(i) + " " + tag)) return;
            if (vs) { int q = pos ? p[i] : i; for (int l = 0; l < g.lyrs; l++) if (!check(vs[l] == g.at(q / g.cols, q % g.cols, l), "GetValueByIndex(" + str(i) + ",values) " + tag)) return; Release1DArray(vs); } }
    };
    all("at first");
    for (int k = 0; k < 12; k++) {
        int row = (int)r.range(-1, g.rows), col = (int)r.range(-1, g.cols), l = (int)r.range(0, g.lyrs + 1); T v = (T)r.range(-90, 90);
        rs->SetValue(row, col, v, l);
        if (stored(row, col) && l >= 1 && l <= g.lyrs) g.at(row, col, l - 1) = v;
        T want = stored(row, col) && l >= 1 && l <= g.lyrs ? v : g.nd;
        check(rs->GetValue(row, col, l) == want, "value after SetValue(" + str(row) + "," + str(col) + "," + str(v) + "," + str(l) + ") " + tag);
    }
    all("after SetValue");
}
template <class T> void run(Rng& r) {
    g_cases++; Grid<T> g = Grid<T>::make(r, r.coin(), 7); bool pos = r.coin(); at(g.tag()); auto* rs = g.raster();
    std::string tag = g.tag(); if (pos) rs->SetCalcPositions();
    std::vector<int> p = g.pos(); model(r, g, rs, pos, p, tag + (pos ? " positions" : " full")); delete rs;
}
template <class T> void onmask(Rng& r) {   // a raster whose values live on the valid cells of a mask
    g_cases++; Grid<int> m = Grid<int>::make(r, false, 7); auto* mask = m.raster(); std::vector<int> p = m.pos(); int lyrs = (int)r.range(1, 3); bool two = r.coin(); if (!two) lyrs = 1;
    std::string tag = "on mask " + m.tag() + " lyrs=" + str(lyrs); at(tag);
    Grid<T> g; g.rows = m.rows; g.cols = m.cols; g.lyrs = lyrs; g.two = two; g.nd = (T)m.nd; g.v.assign((size_t)g.rows * g.cols * lyrs, g.nd);
    T* d = new T[p.size()]; T** d2 = nullptr; Initialize2DArray((int)p.size(), lyrs, d2, (T)0);
    for (size_t i = 0; i < p.size(); i++) for (int l = 0; l < lyrs; l++) { T x = (T)r.range(-50, 50); d2[i][l] = x; if (l == 0) d[i] = x; g.v[(size_t)p[i] * lyrs + l] = x; }
    clsRasterData<T, int>* rs = two ? new clsRasterData<T, int>(mask, d2, (int)p.size(), lyrs) : new clsRasterData<T, int>(mask, d, (int)p.size());
    delete[] d; Release2DArray(d2);
    model(r, g, rs, true, p, tag); delete rs; delete mask;
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { run<float>(r); run<int>(r); onmask<float>(r); }
    return done();
}
