// C19: copies are deep; every owned block is released exactly once
#include "alloc.h"
#include "rasters.h"
static char g_tag[4000];
template <class T> struct Made { clsRasterData<T, int>* r; clsRasterData<int, int>* mask; std::string tag; };
template <class T> Made<T> build(Rng& r) {
    Made<T> m; m.mask = nullptr; bool two = r.coin();
    if (r.coin(3)) {
        Grid<int> g = Grid<int>::make(r, r.coin(3), 6); m.mask = g.raster(); if (r.coin()) m.mask->SetCalcPositions(); int n = (int)g.pos().size(), ly = two ? (int)r.range(1, 3) : 1; m.tag = "on mask " + g.tag();
        if (two) { T** d = nullptr; Initialize2DArray(n, ly, d, (T)0); for (int i = 0; i < n; i++) for (int l = 0; l < ly; l++) d[i][l] = (T)r.range(-5, 5); m.r = new clsRasterData<T, int>(m.mask, d, n, ly); Release2DArray(d); }
        else { std::vector<T> d(n); for (auto& x : d) x = (T)r.range(-5, 5); m.r = new clsRasterData<T, int>(m.mask, d.data(), n); }
    } else {
        Grid<T> g = Grid<T>::make(r, two, 6); STRING_MAP o; if (r.coin()) o["SRS"] = "EPSG:1"; if (r.coin()) o["DATATYPE_OUT"] = "INT32"; m.r = g.raster(o); m.tag = g.tag();
        if (r.coin()) { m.r->SetCalcPositions(); m.tag += " positions"; }
    }
    if (r.coin()) { m.r->CalculateStatistics(); m.tag += " statistics"; }
    if (r.coin(3)) { m.r->SetDefaultValue((double)r.range(0, 5)); }
    if (r.coin()) { m.r->BuildSubSet(); m.tag += " subsets";
        for (auto& p : m.r->GetSubset()) { SubsetPositions* s = p.second; if (r.coin()) { std::vector<double> d(s->n_cells, 2.5); s->SetData(s->n_cells, d.data()); } else if (r.coin()) { double** d = nullptr; Initialize2DArray(s->n_cells, 2, d, 1.5); s->Set2DData(s->n_cells, 2, d); Release2DArray(d); } } }
    return m;
}
typedef std::vector<double> Snap;
template <class T> Snap snap(clsRasterData<T, int>* r) {
    Snap s; int n = r->GetCellNumber(), l = r->GetLayers(); s.push_back(n); s.push_back(l); s.push_back(r->Is2DRaster()); s.push_back(r->GetNoDataValue()); s.push_back(r->GetDefaultValue()); s.push_back(r->PositionsCalculated()); s.push_back(r->StatisticsCalculated()); s.push_back(r->GetDataType()); s.push_back(r->GetOutDataType());
    for (int i = 0; i < n; i++) for (int k = 0; k < l; k++) s.push_back(r->Is2DRaster() ? r->Get2DRasterDataPointer()[i][k] : r->GetRasterDataPointer()[i]);
    if (r->PositionsCalculated()) for (int i = 0; i < n; i++) { s.push_back(r->GetRasterPositionDataPointer()[i][0]); s.push_back(r->GetRasterPositionDataPointer()[i][1]); s.push_back(r->GetRasterPositionIndexPointer()[i]); }
    for (auto& p : r->GetRasterHeader()) s.push_back(p.second);
    for (auto& p : r->GetOptions()) for (char c : p.first + p.second) s.push_back(c);
    if (r->StatisticsCalculated()) { if (r->Is2DRaster()) for (auto& p : r->GetStatistics2D()) { s.push_back(p.second ? 1 : 0); for (int k = 0; k < l && p.second; k++) s.push_back(p.second[k]); } else for (auto& p : r->GetStatistics()) s.push_back(p.second); }
    s.push_back(r->GetSubset().size());
    for (auto& p : r->GetSubset()) { SubsetPositions* q = p.second; s.push_back(p.first); s.push_back(q->usable); s.push_back(q->n_cells); s.push_back(q->n_lyrs); s.push_back(q->g_srow); s.push_back(q->g_erow); s.push_back(q->g_scol); s.push_back(q->g_ecol);
        for (int i = 0; i < q->n_cells; i++) { s.push_back(q->global_[i]); s.push_back(q->local_posidx_[i]); s.push_back(q->local_pos_[i][0]); s.push_back(q->local_pos_[i][1]); if (q->data_) s.push_back(q->data_[i]); if (q->data2d_) for (int k = 0; k < q->n_lyrs; k++) s.push_back(q->data2d_[i][k]); } }
    return s;
}
static std::string diff(const Snap& a, const Snap& b) { if (a.size() != b.size()) return str(a.size()) + " items instead of " + str(b.size()); for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return "item " + str(i) + " is " + str(a[i]) + " not " + str(b[i]); return ""; }
template <class T> void scramble(clsRasterData<T, int>* r) {
    int n = r->GetCellNumber(), l = r->GetLayers(); for (int i = 0; i < n; i++) for (int k = 0; k < l; k++) (r->Is2DRaster() ? r->Get2DRasterDataPointer()[i][k] : r->GetRasterDataPointer()[i]) = (T)77;
    if (r->PositionsCalculated() && r->PositionsAllocated()) for (int i = 0; i < n; i++) { r->GetRasterPositionDataPointer()[i][0] = -7; r->GetRasterPositionIndexPointer()[i] = -7; }
    if (r->Is2DRaster() && r->StatisticsCalculated()) for (auto& p : r->GetStatistics2D()) if (p.second) p.second[0] = 1234.5;
    for (auto& p : r->GetSubset()) { for (int i = 0; i < p.second->n_cells; i++) { p.second->global_[i] = -7; p.second->local_pos_[i][0] = -7; p.second->local_posidx_[i] = -7; if (p.second->data_) p.second->data_[i] = -7; if (p.second->data2d_) p.second->data2d_[i][0] = -7; } }
}
template <class T> void one(Rng& r) {
    Made<T> a = build<T>(r), b; b.r = nullptr; b.mask = nullptr; bool fresh = r.coin(3); std::string tag = "source " + a.tag;
    clsRasterData<T, int>* c;
    if (fresh) { at(tag); c = new clsRasterData<T, int>(a.r); tag += " -> new"; }
    else { b = build<T>(r); tag += " -> target " + b.tag; at(tag); c = b.r; c->Copy(a.r); }
    snprintf(g_tag, sizeof g_tag, "%s", tag.c_str());
    Snap s = snap(a.r); std::string d = diff(snap(c), s); check(d.empty(), "the copy differs: " + d + " " + tag);
    check(c->GetStatistics().size() == 6 && c->GetStatistics2D().size() == 6, "statistics tables of the copy " + tag);
    if (r.coin()) { scramble(a.r); d = diff(snap(c), s); check(d.empty(), "the copy follows its source: " + d + " " + tag); }
    else { scramble(c); d = diff(snap(a.r), s); check(d.empty(), "the source follows its copy: " + d + " " + tag); }
    if (r.coin(4)) { c->Copy(a.r); at("again " + tag); }
    if (r.coin()) { delete a.r; a.r = nullptr; }
    at("release " + tag);
    delete c; if (a.r) { delete a.r; } delete a.mask; delete b.mask;
}
static void subsets(Rng& r) {
    SubsetPositions* p = new SubsetPositions(0, 3, 0, 3); int n = (int)r.range(1, 6); p->n_cells = n; p->alloc_ = true; Initialize1DArray(n, p->global_, 3); Initialize1DArray(n, p->local_posidx_, 4); Initialize2DArray(n, 2, p->local_pos_, 5);
    std::vector<double> d(n, 1.5); double** e = nullptr; int ly = (int)r.range(1, 4), l2 = (int)r.range(1, 4); Initialize2DArray(n, 4, e, 2.5); bool one = r.coin(), two = r.coin(), deep = r.coin();
    std::string tag = "subset n=" + str(n) + " 1D=" + str(one) + " 2D=" + str(two) + " layers " + str(ly) + " then " + str(l2) + (deep ? " deep" : " shallow"); at(tag); snprintf(g_tag, sizeof g_tag, "%s", tag.c_str());
    if (one) p->SetData(n, d.data()); if (two) { p->Set2DData(n, ly, e); p->Set2DData(n, l2, e); }
    SubsetPositions* q = new SubsetPositions(p, deep); if (p->data_) p->data_[0] = 9; if (p->data2d_) p->data2d_[0][0] = 9;
    check(!q->data_ || q->data_[0] == 1.5, "data shared " + tag); check(!q->data2d_ || q->data2d_[0][0] == 2.5, "layers shared " + tag);
    check(!q->data_ == !p->data_ && !q->data2d_ == !p->data2d_ && (q->global_ == p->global_) == !deep, "ownership " + tag);
    if (deep && r.coin()) { delete p; delete q; } else { delete q; check(p->global_[0] == 3 && p->local_pos_[0][0] == 5, "positions gone " + tag); delete p; }
    Release2DArray(e);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed); one<float>(r); subsets(r);
    while (g_cases < cases) { g_cases++; uint64_t s0 = r.s; long b = g_live; int k = (int)r.range(0, 4); if (k == 0) subsets(r); else if (k < 3) one<float>(r); else one<int>(r);
        long left = g_live - b; check(left == 0, str(left) + " blocks left behind, " + g_tag); }
    return done();
}
