// C27: constructed rasters hold what they were given
#include "rasters.h"
template <class R> void invariants(R* rs, const std::string& tag) {
    check(rs->GetRasterHeader().at("NROWS") == rs->GetRows() && rs->GetRasterHeader().at("LAYERS") == rs->GetLayers() && rs->GetRasterHeader().at("CELLSNUM") == rs->GetCellNumber(), "header LAYERS " + str(rs->GetRasterHeader().at("LAYERS")) + "/" + str(rs->GetLayers()) + " CELLSNUM " + str(rs->GetRasterHeader().at("CELLSNUM")) + "/" + str(rs->GetCellNumber()) + " " + tag);
    check(!rs->StatisticsCalculated() && rs->GetStatistics().size() == 6 && rs->GetStatistics2D().size() == 6 && rs->GetSubset().empty(), "statistics and subsets of a new raster " + tag);
}
template <class T> void run(Rng& r) {
    g_cases++; bool two = r.coin(); Grid<T> g = Grid<T>::make(r, two, 7); at(g.tag());
    STRING_MAP o; if (r.coin()) o["SRS"] = "EPSG:" + str(r.range(1, 9)); if (r.coin()) o["DATATYPE_OUT"] = r.coin() ? "INT32" : "Float"; if (r.coin()) o["X" + str(r.range(0, 9))] = "y";
    std::string ot = o.count("DATATYPE_OUT") ? (o["DATATYPE_OUT"] == "INT32" ? "INT32" : "FLOAT") : "Unknown", tag = g.tag() + " out " + ot;
    auto* rs = g.raster(o); invariants(rs, tag);
    check(rs->GetRows() == g.rows && rs->GetCols() == g.cols && rs->GetLayers() == g.lyrs && rs->GetCellNumber() == g.rows * g.cols && rs->Is2DRaster() == two && rs->GetNoDataValue() == g.nd, "sizes " + tag);
    check(rs->GetXllCenter() == g.xll && rs->GetYllCenter() == g.yll && rs->GetCellWidth() == g.dx && rs->GetRasterHeader().at("NODATA_VALUE") == (double)g.nd, "extent " + tag);
    check(RasterDataTypeToString(rs->GetOutDataType()) == ot, "output type " + RasterDataTypeToString(rs->GetOutDataType()) + " " + tag);
    for (auto& p : o) check(rs->GetOption(p.first.c_str()) == p.second, "option " + p.first + " " + tag);
    for (int i = 0; i < g.rows * g.cols; i++) for (int l = 0; l < g.lyrs; l++) check(rs->GetValue(i / g.cols, i % g.cols, l + 1) == g.v[(size_t)i * g.lyrs + l], "cell " + str(i) + " " + tag);
    check(!rs->PositionsCalculated() && !rs->PositionsAllocated() && rs->GetMask() == nullptr, "positions of a new raster " + tag);
    delete rs;
    // on a mask
    bool mtwo = r.coin(3); Grid<int> m = Grid<int>::make(r, mtwo, 7); auto* mask = m.raster(); if (r.coin()) mask->SetCalcPositions(); double dv = (double)r.range(-9, 9); mask->SetDefaultValue(dv);
    std::vector<int> ps = m.pos(); int n = (int)ps.size(), given = r.coin(5) ? n + 1 : n, ly = two ? (int)r.range(1, 4) : 1;
    tag = "mask " + m.tag() + " values " + str(given) + " layers " + str(two ? ly : 0) + " out " + ot; at(tag);
    std::vector<T> v((size_t)given * ly); for (auto& x : v) x = (T)r.range(-50, 50);
    clsRasterData<T, int>* q; T** d2 = nullptr;
    if (two) { Initialize2DArray(given, ly, d2, (T)0); for (int i = 0; i < given; i++) for (int l = 0; l < ly; l++) d2[i][l] = v[(size_t)i * ly + l]; q = new clsRasterData<T, int>(mask, d2, given, ly, o); }
    else q = new clsRasterData<T, int>(mask, v.data(), given, o);
    if (given != n) { check(!q->Initialized() || !q->ValidateRasterData(), "a raster with a wrong number of values is usable " + tag); }
    else {
        invariants(q, tag);
        check(q->GetCellNumber() == n && q->GetLayers() == ly && q->GetRows() == m.rows && q->GetCols() == m.cols && q->GetNoDataValue() == (T)m.nd && q->GetXllCenter() == m.xll && q->GetCellWidth() == m.dx, "sizes " + tag);
        check(q->GetDefaultValue() == dv, "default value " + str(q->GetDefaultValue()) + " of the mask is " + str(dv) + " " + tag);
        check(RasterDataTypeToString(q->GetOutDataType()) == ot, "output type " + RasterDataTypeToString(q->GetOutDataType()) + " " + tag);
        check(q->GetMask() == mask && q->PositionsCalculated() && !q->PositionsAllocated() && q->GetRasterPositionIndexPointer() == mask->GetRasterPositionIndexPointer(), "positions " + tag);
        if (two) { for (int i = 0; i < given; i++) d2[i][0] += 1; } else { std::vector<T> w = v; for (auto& x : v) x += 1; v.swap(w); w.clear(); }
        for (int i = 0; i < m.rows * m.cols; i++) for (int l = 0; l < ly; l++) { auto it = std::lower_bound(ps.begin(), ps.end(), i); bool in = it != ps.end() && *it == i;
            T e = in ? v[(size_t)(it - ps.begin()) * ly + l] : (T)m.nd, x = q->GetValue(i / m.cols, i % m.cols, l + 1); check(x == e, "cell " + str(i) + " layer " + str(l + 1) + " = " + str(x) + " expected " + str(e) + " " + tag); }
        for (auto& p : o) if (p.first != "SRS") check(q->GetOption(p.first.c_str()) == p.second, "option " + p.first + " " + tag);
    }
    delete q; check(mask->GetCellNumber() == n && mask->GetRasterPositionIndexPointer()[n - 1] == ps[n - 1], "the mask after its raster is gone " + tag);
    delete mask; if (d2) Release2DArray(d2);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { run<float>(r); run<int>(r); }
    return done();
}
