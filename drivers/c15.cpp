// C15: sub-regions of a raster and the values output in their cells
#include "common.h"
#include <regex>
#include <fstream>
#include <unordered_map>
#define private public
#include "alloc.h"
#include "rasters.h"
static char g_tag[4000];
template <class T> T tv(double x) { return static_cast<T>(x); }
template <class T> struct World {
    Grid<T> g; clsRasterData<T, int>* rs; std::map<int, int> groups; std::vector<int> pos; std::map<int, std::vector<int> > mem; std::string tag;
    ~World() { delete rs; }
    explicit World(Rng& r) {
        g = Grid<T>::make(r, r.coin(), 6); for (auto& x : g.v) if (x != g.nd) { x = (T)r.range(1, 4); if (x == g.nd) x = (T)5; }
        rs = g.raster(); tag = g.tag(); at(tag);
        if (r.coin()) for (int k = 1; k <= 5; k++) if (r.coin()) { groups[k] = (int)r.range(1, 3); tag += " group " + str(k) + "->" + str(groups[k]); }
        if (r.coin(3)) { rs->SetDefaultValue((double)r.range(0, 5)); tag += " default " + str(rs->GetDefaultValue()); }
        pos = g.pos();
        for (int i = 0; i < (int)pos.size(); i++) { int v = (int)g.at(pos[i] / g.cols, pos[i] % g.cols); int k = groups.count(v) ? groups[v] : v; mem[k].push_back(i); }
        at("BuildSubSet " + tag);
        check(rs->BuildSubSet(groups), "BuildSubSet refused " + tag);
        auto& m = rs->GetSubset(); check(m.size() == mem.size(), "number of sub-regions " + str(m.size()) + " " + tag);
        for (auto& p : mem) {
            if (!check(m.count(p.first) == 1, "no sub-region " + str(p.first) + " " + tag)) continue;
            SubsetPositions* s = m.at(p.first); auto& c = p.second;
            if (!check(s->n_cells == (int)c.size(), "cells of sub-region " + str(p.first) + ": " + str(s->n_cells) + " not " + str(c.size()) + " " + tag)) continue;
            int r0 = 1 << 30, r1 = -1, c0 = 1 << 30, c1 = -1;
            for (int i : c) { int a = pos[i] / g.cols, b = pos[i] % g.cols; r0 = std::min(r0, a); r1 = std::max(r1, a); c0 = std::min(c0, b); c1 = std::max(c1, b); }
            check(s->g_srow == r0 && s->g_erow == r1 && s->g_scol == c0 && s->g_ecol == c1, "rectangle of sub-region " + str(p.first) + " " + tag);
            for (int i = 0; i < (int)c.size(); i++) { int a = pos[c[i]] / g.cols - r0, b = pos[c[i]] % g.cols - c0;
                check(s->global_[i] == c[i], "stored index " + str(i) + " of sub-region " + str(p.first) + " = " + str(s->global_[i]) + " " + tag);
                check(s->local_pos_[i][0] == a && s->local_pos_[i][1] == b && s->local_posidx_[i] == a * (c1 - c0 + 1) + b, "local position " + str(i) + " of sub-region " + str(p.first) + " " + tag); }
            STRDBL_MAP h; s->GetHeader(rs->GetXllCenter(), rs->GetYllCenter(), rs->GetRows(), rs->GetCellWidth(), (double)g.nd, h);
            check(h["XLLCENTER"] == c0 * g.dx + g.xll && h["YLLCENTER"] == (g.rows - r1 - 1) * g.dx + g.yll && h["NROWS"] == r1 - r0 + 1 && h["NCOLS"] == c1 - c0 + 1 && h["NODATA_VALUE"] == (double)g.nd && h["CELLSIZE"] == g.dx, "header of sub-region " + str(p.first) + " " + tag);
        }
    }
    // values given to the sub-regions
    std::map<int, std::vector<std::vector<double> > > vals; std::map<int, int> kind;   // 0 none, 1 one layer, 2 layers as 2D
    void give(Rng& r, int lyrs, int force) {
        for (auto& p : mem) {
            int k = force >= 0 ? force : (int)r.range(0, 2), L = k == 2 ? lyrs : 1, n = (int)p.second.size(); if (k == 0) { continue; }
            SubsetPositions* s = rs->GetSubset().at(p.first); auto& v = vals[p.first]; v.assign(n, std::vector<double>(L)); for (auto& x : v) for (auto& y : x) y = (double)r.range(-20, 20);
            if (k == 1) { std::vector<double> d(n); for (int i = 0; i < n; i++) d[i] = v[i][0]; check(s->SetData(n, d.data()), "SetData refused " + tag); check(!s->SetData(n + 1, d.data()), "SetData with another size " + tag); }
            else { double** d = nullptr; Initialize2DArray(n, L, d, 0.); for (int i = 0; i < n; i++) for (int l = 0; l < L; l++) d[i][l] = v[i][l]; check(s->Set2DData(n, L, d), "Set2DData refused " + tag); Release2DArray(d); }
            kind[p.first] = k; tag += " data " + str(p.first) + ":" + str(k) + "x" + str(L);
        }
    }
};
template <class T> std::string cmp(T* d, int n, const std::vector<T>& e) { for (int i = 0; i < n; i++) if (d[i] != e[i]) return "value " + str(i) + " is " + str(d[i]) + " not " + str(e[i]); return ""; }
template <class T> void one(Rng& r) {
    long live0 = g_live;
    {
        World<T> w(r); Grid<T>& g = w.g; int L = (int)r.range(1, 3), N = g.rows * g.cols;
        bool orig = r.coin(3), incl = r.coin(), rec = r.coin(3); w.give(r, L, r.coin() ? (int)r.range(1, 2) : -1);
        if (r.coin(3)) w.give(r, (int)r.range(1, 3), (int)r.range(1, 2));                    // given again, another kind or layer count
        map<vint, vector<double> > rc; int RL = (int)r.range(0, g.two ? g.lyrs : 3); bool ragged = false;
        if (rec) { for (int k = 0; k <= 5; k++) if (r.coin()) { int m = RL; if (r.coin(12)) { m++; } for (int l = 0; l < m; l++) rc[k].push_back((double)r.range(100, 130)); rc[k]; }
            for (auto& p : rc) if (p.second.size() != rc.begin()->second.size()) ragged = true; if (rc.size()) RL = (int)rc.begin()->second.size(); w.tag += " recls " + str(rc.size()) + "x" + str(RL) + (ragged ? " ragged" : ""); }
        bool rc_on = !rc.empty(); double dv = r.coin() ? NODATA_VALUE : (double)r.range(-3, 3); double def = dv == NODATA_VALUE ? w.rs->GetDefaultValue() : dv;
        std::set<int> off; for (auto& p : w.mem) if (r.coin(4)) { off.insert(p.first); w.rs->GetSubset().at(p.first)->usable = false; w.tag += " unusable " + str(p.first); }
        w.tag += std::string(orig ? " original" : "") + (incl ? " rectangle" : " cells") + " dv=" + str(dv);
        auto layers = [&](int id) { return w.rs->GetSubset().at(id)->n_lyrs; };
        auto value = [&](int id, int i, int l, bool comb) -> T {
            int gi = w.pos[w.mem[id][i]]; if (rc_on) { int key = orig ? (int)g.at(gi / g.cols, gi % g.cols, g.two ? l : 0) : id; double v = def; if (rc.count(key) && (int)rc[key].size() > l) v = rc[key][l]; return tv<T>(v); }
            if (comb && off.count(id)) return tv<T>(def); if (orig) return g.at(gi / g.cols, gi % g.cols, g.two ? l : 0); return tv<T>(w.vals[id][i][l]); };
        snprintf(g_tag, sizeof g_tag, "%s", w.tag.c_str());
        // every sub-region of its own
        for (auto& p : w.mem) {
            SubsetPositions* s = w.rs->GetSubset().at(p.first); T* d = nullptr; int n = 0, ly = 0; std::string tag = "sub-region " + str(p.first) + " " + w.tag; at(tag);
            if (rc_on && !orig && layers(p.first) < 1) continue;
            bool ok = w.rs->PrepareSubsetData(p.first, s, &d, &n, &ly, orig, incl, rc, dv);
            int want = orig ? (rc_on && RL > 0 ? RL : (g.two ? g.lyrs : 1)) : layers(p.first);
            bool can = !(rc_on && ragged) && (rc_on || orig || w.kind.count(p.first)) && want >= 1 && !(orig && g.two && want > g.lyrs);
            check(ok == can, std::string(ok ? "output" : "refused") + " " + tag); if (!ok || !can) { if (ok) Release1DArray(d); continue; }
            int rows = s->g_erow - s->g_srow + 1, cols = s->g_ecol - s->g_scol + 1, c = incl ? rows * cols : s->n_cells;
            if (check(ly == want && n == c * ly, "size " + str(n) + " layers " + str(ly) + " " + tag)) {
                std::vector<T> e((size_t)c * ly, g.nd); for (int i = 0; i < s->n_cells; i++) for (int l = 0; l < ly; l++) { int gi = w.pos[p.second[i]], j = incl ? (gi / g.cols - s->g_srow) * cols + gi % g.cols - s->g_scol : i; e[(size_t)j * ly + l] = value(p.first, i, l, false); }
                std::string m = cmp(d, n, e); check(m.empty(), m + " " + tag); }
            Release1DArray(d);
            if (w.kind.count(p.first)) { std::vector<T*> f; s->Output(g.nd, f); if (check((int)f.size() == layers(p.first), "arrays of Output " + tag)) for (int l = 0; l < (int)f.size(); l++) {
                std::vector<T> e((size_t)rows * cols, g.nd); for (int i = 0; i < s->n_cells; i++) e[s->local_posidx_[i]] = tv<T>(w.vals[p.first][i][l]); std::string m = cmp(f[l], rows * cols, e); check(m.empty(), "Output layer " + str(l) + " " + m + " " + tag); }
                for (auto x : f) delete[] x; }
        }
        // all of them combined
        int first = -1; bool can = !(rc_on && ragged), some = false; for (auto& p : w.mem) if (!off.count(p.first)) { some = true; if (!(rc_on || orig || w.kind.count(p.first))) can = false; if (first < 0) first = layers(p.first); else if (first != layers(p.first)) can = false; }
        int ly = 0, n = 0; T* d = nullptr; int want = orig ? (rc_on && RL > 0 ? RL : (g.two ? g.lyrs : 1)) : (some ? first : (rc_on ? RL : -1)); if (orig && g.two && want > g.lyrs) can = false;
        bool murky = want == 0 || (some && first < 0);   // layers never set
        if (!murky) {
            std::string tag = "combined " + w.tag; at(tag); bool ok = w.rs->PrepareCombSubsetData(&d, &n, &ly, orig, incl, rc, dv); if (want < 1) can = false;
            check(ok == can, std::string(ok ? "output" : "refused") + " " + tag);
            if (ok && can) { int c = incl ? N : (int)w.pos.size(); if (check(ly == want && n == c * ly, "size " + str(n) + " layers " + str(ly) + " " + tag)) {
                std::vector<T> e((size_t)c * ly, g.nd); for (auto& p : w.mem) { if (off.count(p.first) && std::fabs((double)g.nd - def) < 1e-6) continue; for (int i = 0; i < (int)p.second.size(); i++) for (int l = 0; l < ly; l++) e[(size_t)(incl ? w.pos[p.second[i]] : p.second[i]) * ly + l] = value(p.first, i, l, true); }
                std::string m = cmp(d, n, e); check(m.empty(), m + " " + tag); } }
            if (ok) Release1DArray(d);
        }
        g_cases++;
    }
    long left = g_live - live0; check(left == 0, str(left) + " blocks left behind, " + g_tag);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { one<float>(r); one<int>(r); }
    return done();
}
