// random reference grids and the rasters built from them
#pragma once
#include "common.h"
#include "data_raster.hpp"
using namespace ccgl; using namespace ccgl::data_raster; using namespace drv;
template <class T> struct Grid {
    int rows, cols, lyrs; bool two; T nd; double dx, xll, yll, dv = 0; bool setdv = false; std::vector<T> v;
    T& at(int r, int c, int l = 0) { return v[((size_t)r * cols + c) * lyrs + l]; }
    bool valid(int r, int c) { return at(r, c) != nd; }
    std::vector<int> pos() { std::vector<int> p; for (int i = 0; i < rows * cols; i++) if (valid(i / cols, i % cols)) p.push_back(i); return p; }
    static Grid make(Rng& r, bool two, int maxdim = 9) {
        Grid g; g.two = two; g.rows = (int)r.range(1, maxdim); g.cols = (int)r.range(1, maxdim); g.lyrs = two ? (int)r.range(1, 4) : 1;
        g.nd = r.coin() ? (T)-9999 : (T)r.range(-3, 3); const double ds[] = {1., 0.5, 30., 10., 0.1, 92.6}; g.dx = ds[r.range(0, 5)];
        g.xll = (double)r.range(-500, 500) + (r.coin() ? 0.5 : 0.); g.yll = (double)r.range(-500, 500) + (r.coin() ? 0.25 : 0.);
        if ((g.setdv = r.coin(3))) g.dv = (double)r.range(-3, 5);
        int dens = (int)r.range(0, 3); g.v.resize((size_t)g.rows * g.cols * g.lyrs); bool any = false;
        for (int i = 0; i < g.rows * g.cols; i++) for (int l = 0; l < g.lyrs; l++) {
            T x = r.range(0, 3) < dens ? g.nd : (T)(r.range(-40, 40) * (sizeof(T) > 0 && T(0.5) != T(0) ? 0.25 : 1)); g.v[(size_t)i * g.lyrs + l] = x; if (l == 0 && x != g.nd) any = true; }
        if (!any) g.v[(size_t)r.range(0, g.rows * g.cols - 1) * g.lyrs] = (T)(g.nd + 1);
        return g;
    }
    clsRasterData<T, int>* raster(const STRING_MAP& o = STRING_MAP()) {
        if (two) { T** d = nullptr; Initialize2DArray(rows * cols, lyrs, d, (T)0); for (int i = 0; i < rows * cols; i++) for (int l = 0; l < lyrs; l++) d[i][l] = v[(size_t)i * lyrs + l];
            return tune(new clsRasterData<T, int>(d, cols, rows, lyrs, nd, dx, xll, yll, o)); }
        T* d = nullptr; Initialize1DArray(rows * cols, d, (T)0); for (int i = 0; i < rows * cols; i++) d[i] = v[i];
        return tune(new clsRasterData<T, int>(d, cols, rows, nd, dx, xll, yll, o));
    }
    clsRasterData<T, int>* tune(clsRasterData<T, int>* rs) { if (setdv) rs->SetDefaultValue(dv); return rs; }
    std::string tag() { return std::string(two ? "2D " : "1D ") + "rows=" + str(rows) + " cols=" + str(cols) + " lyrs=" + str(lyrs) + " nodata=" + str(nd) + " dx=" + str(dx) + " xll=" + str(xll) + " yll=" + str(yll) + (setdv ? " default=" + str(dv) : std::string()) + " " + arr(v); }
};
