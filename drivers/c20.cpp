// C20: header and option maps
#include "rasters.h"
static const char* KEYS[] = {"NCOLS", "NROWS", "XLLCENTER", "YLLCENTER", "XLLCORNER", "CELLSIZE", "NODATA_VALUE", "LAYERS", "CELLSNUM", "A", "", "nrows"};
static const char* SKEYS[] = {"SRS", "DATATYPE", "DATATYPE_OUT", "INCLUDE_NODATA", "MASK_NAME", "x", ""};
static std::string k1(Rng& r) { return KEYS[r.range(0, 11)]; }
static std::string k2(Rng& r) { return SKEYS[r.range(0, 6)]; }
static STRDBL_MAP hm(Rng& r) { STRDBL_MAP m; int n = (int)r.range(0, 10); for (int i = 0; i < n; i++) m[k1(r)] = (double)r.range(-20, 20) * 0.5; return m; }
static STRING_MAP sm(Rng& r) { STRING_MAP m; int n = (int)r.range(0, 6); for (int i = 0; i < n; i++) m[k2(r)] = r.coin(5) ? std::string() : "v" + str(r.range(0, 9)); return m; }
template <class M> std::string ms(const M& m) { std::string s = "{"; for (auto& e : m) s += e.first + "=" + str(e.second) + ";"; return s + "}"; }
template <class M> void same(const M& a, const M& b, const std::string& w) { check(a == b, w + " got " + ms(a) + " expected " + ms(b)); }
template <class T> void raster(Rng& r) {
    Grid<T> g = Grid<T>::make(r, r.coin()); STRING_MAP o = sm(r); at(g.tag()); auto* rs = g.raster(o); std::string tag = g.tag();
    check(rs->GetRows() == g.rows && rs->GetCols() == g.cols && rs->GetCellWidth() == g.dx && rs->GetLayers() == g.lyrs && rs->GetCellNumber() == g.rows * g.cols, "header accessors " + tag);
    check(rs->GetXllCenter() == g.xll && rs->GetYllCenter() == g.yll && rs->GetNoDataValue() == g.nd, "centre accessors " + tag);
    for (auto& e : o) if (e.first != "SRS" && e.first != "DATATYPE" && e.first != "DATATYPE_OUT") check(rs->GetOption(e.first.c_str()) == e.second, "option " + e.first + " = " + rs->GetOption(e.first.c_str()) + " expected " + e.second + " " + tag);
    { const char* q = rs->GetSrs(); check(std::string(q) == (o.count("SRS") ? o["SRS"] : std::string("")), "GetSrs " + tag); }
    check(rs->GetOption("no such key") == "", "missing option " + tag);
    STRDBL_MAP before = rs->GetRasterHeader(), g2 = hm(r), want = before;
    for (auto& e : g2) want[e.first] = e.second;
    rs->SetHeader(g2); same(rs->GetRasterHeader(), want, "SetHeader of " + ms(g2) + " on " + ms(before));
    check(rs->GetCellNumber() == (int)want["CELLSNUM"] && rs->GetLayers() == (int)want["LAYERS"] && rs->GetNoDataValue() == (T)want["NODATA_VALUE"], "values after SetHeader " + ms(want));
    rs->SetHeader(before);   // the recorded layer and cell numbers rule the destructor
    STRDBL_MAP h = before; double xc = (double)r.range(-9, 9), d = 2.; h["CELLSIZE"] = d;
    delete rs;
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) {
        g_cases++;
        STRDBL_MAP a = hm(r), b = hm(r), w = b; at(ms(a) + ms(b));
        for (auto& e : a) w[e.first] = e.second;
        { STRDBL_MAP c = b; CopyHeader(a, c); same(c, w, "CopyHeader " + ms(a) + " to " + ms(b)); }
        STRING_MAP sa = sm(r), sb = sm(r), sw = sb; for (auto& e : sa) sw[e.first] = e.second;
        { STRING_MAP c = sb; CopyStringMap(sa, c); same(c, sw, "CopyStringMap " + ms(sa) + " to " + ms(sb)); }
        std::string k = k1(r); double v = (double)r.range(-9, 9) * 0.25;
        { STRDBL_MAP c = a, x = a; UpdateHeader(c, k, v); x[k] = v; same(c, x, "UpdateHeader " + k); UpdateHeader(c, k, 7); x[k] = 7; same(c, x, "UpdateHeader int " + k); UpdateHeader(c, k, 1.5f); x[k] = 1.5; same(c, x, "UpdateHeader float " + k); }
        k = k2(r);
        { STRING_MAP c = sa, x = sa; std::string nv = r.coin(3) ? "" : "new"; UpdateStringMap(c, k, nv); x[k] = nv; same(c, x, "UpdateStringMap " + k); nv = r.coin(3) ? "" : "old"; UpdateStrHeader(c, k, nv); x[k] = nv; same(c, x, "UpdateStrHeader " + k); }
        STRDBL_MAP ih = InitialHeader(), ex; for (const char* n : {"NCOLS", "NROWS", "XLLCENTER", "YLLCENTER", "CELLSIZE", "NODATA_VALUE", "LAYERS", "CELLSNUM"}) ex[n] = -9999.;
        same(ih, ex, "InitialHeader");
        STRING_MAP is = InitialStrHeader(), es; for (const char* n : {"SRS", "DATATYPE", "DATATYPE_OUT", "INCLUDE_NODATA", "MASK_NAME"}) es[n] = "";
        same(is, es, "InitialStrHeader");
        STRDBL_MAP st; if (r.coin()) st["MEAN"] = 3.; STRDBL_MAP sx = st; std::map<std::string, double*> s2, s2x; double q = 0; if (r.coin()) s2["MAX"] = &q; s2x = s2;
        InitialStatsMap(st, s2); for (const char* n : {"VALID_CELLNUMBER", "MIN", "MAX", "MEAN", "STD", "RANGE"}) { if (!sx.count(n)) sx[n] = -9999.; if (!s2x.count(n)) s2x[n] = nullptr; }
        same(st, sx, "InitialStatsMap"); check(s2 == s2x, "InitialStatsMap 2D");
        int sr = (int)r.range(0, 5), er = sr + (int)r.range(0, 5), sc = (int)r.range(0, 5), ec = sc + (int)r.range(0, 5), nr = er + 1 + (int)r.range(0, 3); double gx = 100.5, gy = 20.25, cs = 2.5;
        SubsetPositions sp(sr, er, sc, ec); STRDBL_MAP hs = a, hx = a; sp.GetHeader(gx, gy, nr, cs, -1., hs);
        hx["XLLCENTER"] = gx + sc * cs; hx["YLLCENTER"] = gy + (nr - 1 - er) * cs; hx["NODATA_VALUE"] = -1; hx["NROWS"] = er - sr + 1; hx["NCOLS"] = ec - sc + 1; hx["CELLSIZE"] = cs; hx["CELLSNUM"] = -1; hx["LAYERS"] = -1;
        same(hs, hx, "SubsetPositions::GetHeader " + str(sr) + "," + str(er) + "," + str(sc) + "," + str(ec) + " of " + str(nr) + " rows");
        if (g_cases % 4 == 0) { raster<float>(r); raster<int>(r); }
    }
    return done();
}
