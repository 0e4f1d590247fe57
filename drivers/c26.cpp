// C26: statistics of a raster
#include "rasters.h"
static const char* NAMES[] = {"VALID_CELLNUMBER", "MEAN", "MAX", "MIN", "STD", "RANGE"};
static std::string mixed(Rng& r, std::string s) { for (auto& c : s) if (r.coin()) c = (char)tolower(c); return s; }
template <class T> struct Ref { std::vector<std::vector<double> > s; };   // [name][layer]
template <class T> Ref<T> reference(Grid<T>& g, T nd) {
    Ref<T> o; o.s.assign(6, std::vector<double>(g.lyrs));
    for (int l = 0; l < g.lyrs; l++) { double n = 0, sum = 0, mx = -1e300, mn = 1e300, sq = 0;
        for (int i = 0; i < g.rows * g.cols; i++) { T x = g.v[(size_t)i * g.lyrs + l]; if (x == nd) continue; n++; sum += x; mx = std::max(mx, (double)x); mn = std::min(mn, (double)x); }
        double mean = sum / n; for (int i = 0; i < g.rows * g.cols; i++) { T x = g.v[(size_t)i * g.lyrs + l]; if (x != nd) sq += (x - mean) * (x - mean); }
        double v[] = {n, mean, mx, mn, std::sqrt(sq / n), mx - mn}; for (int k = 0; k < 6; k++) o.s[k][l] = v[k]; }
    return o;
}
template <class T> void run(Rng& r) {
    g_cases++; bool two = r.coin(); Grid<T> g = Grid<T>::make(r, two, 6);
    for (int l = 0; l < g.lyrs; l++) g.v[(size_t)r.range(0, g.rows * g.cols - 1) * g.lyrs + l] = (T)(g.nd + 2);   // every layer has a valid cell
    bool pos = r.coin();
    if (pos) for (int i = 0; i < g.rows * g.cols; i++) if (g.v[(size_t)i * g.lyrs] == g.nd) for (int l = 1; l < g.lyrs; l++) g.v[(size_t)i * g.lyrs + l] = g.nd;
    for (int l = 0; l < g.lyrs; l++) { bool any = false; for (int i = 0; i < g.rows * g.cols; i++) any |= g.v[(size_t)i * g.lyrs + l] != g.nd; if (!any) return; }
    at(g.tag()); auto* rs = g.raster(); if (pos) rs->SetCalcPositions();
    std::string tag = (pos ? "positions " : "full ") + g.tag();
    if (r.coin()) rs->CalculateStatistics();
    Ref<T> cached = reference(g, g.nd); bool computed = rs->StatisticsCalculated();
    for (int step = 0; step < 12; step++) {
        int what = (int)r.range(0, 4);
        if (what == 0) {   // change a valid cell; figures stay until UpdateStatistics
            int i = (int)r.range(0, g.rows * g.cols - 1), l = (int)r.range(0, g.lyrs - 1); if (g.v[(size_t)i * g.lyrs] == g.nd || g.v[(size_t)i * g.lyrs + l] == g.nd) continue;
            T x = (T)r.range(-90, 90); if (x == g.nd) continue; g.v[(size_t)i * g.lyrs + l] = x; rs->SetValue(i / g.cols, i % g.cols, x, l + 1); tag += " set"; if (!computed) cached = reference(g, g.nd);
        } else if (what == 1) { rs->UpdateStatistics(); computed = true; cached = reference(g, g.nd); tag += " update"; }
        else if (what == 2) { rs->CalculateStatistics(); if (!computed) cached = reference(g, g.nd); computed = true; tag += " calculate"; }
        else {
            int k = (int)r.range(0, 5), l = (int)r.range(-1, g.lyrs + 1); std::string nm = mixed(r, NAMES[k]);
            double v = rs->GetStatistics(nm, l);
            if (l < 1 || l > g.lyrs) check(v == rs->GetDefaultValue(), "layer " + str(l) + " gives " + str(v) + " " + tag);
            else { computed = true; check(close(v, cached.s[k][l - 1], 1e-4, 1e-5), nm + " layer " + str(l) + " = " + str(v) + " expected " + str(cached.s[k][l - 1]) + " " + tag); }
            check(rs->GetStatistics("median", 1) == rs->GetDefaultValue(), "unknown name " + tag);
            if (two) { int n = -7; double* vs = nullptr; rs->GetStatistics(mixed(r, NAMES[k]), &n, &vs); computed = true;
                if (check(n == g.lyrs && vs != nullptr, "layers of " + nm + " " + str(n) + " " + tag)) for (int q = 0; q < g.lyrs; q++) check(close(vs[q], cached.s[k][q], 1e-4, 1e-5), nm + "[" + str(q) + "] = " + str(vs[q]) + " expected " + str(cached.s[k][q]) + " " + tag);
                vs = nullptr; rs->GetStatistics("median", &n, &vs); check(vs == nullptr, "unknown name gives values " + tag); }
        }
        check(rs->StatisticsCalculated() == computed, "computed mark " + str(rs->StatisticsCalculated()) + " " + tag);
    }
    delete rs;
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { run<float>(r); run<int>(r); }
    return done();
}
