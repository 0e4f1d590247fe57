// C11: coordinates and cells
#include "rasters.h"
template <class T> void run(Rng& r) {
    g_cases++; Grid<T> g = Grid<T>::make(r, false); bool pos = r.coin(); at(g.tag()); auto* rs = g.raster();
    if (pos) rs->SetCalcPositions();
    std::string tag = (pos ? "positions " : "full ") + g.tag();
    double x0 = g.xll - g.dx / 2, y0 = g.yll - g.dx / 2;
    for (int row = 0; row < g.rows; row++) for (int col = 0; col < g.cols; col++) {
        XY_COOR c = rs->GetCoordinateByRowCol(row, col);
        check(close(c.first, g.xll + col * g.dx) && close(c.second, g.yll + (g.rows - 1 - row) * g.dx), "centre of " + str(row) + "," + str(col) + " is " + str(c.first) + "," + str(c.second) + " " + tag);
        ROW_COL rc = rs->GetPositionByCoordinate(c.first, c.second);
        check(rc.first == row && rc.second == col, "centre of " + str(row) + "," + str(col) + " maps to " + str(rc.first) + "," + str(rc.second) + " " + tag);
        for (int k = 0; k < 3; k++) {   // a point strictly inside the cell
            double x = x0 + (col + 0.02 + 0.96 * r.unit()) * g.dx, y = y0 + (g.rows - 1 - row + 0.02 + 0.96 * r.unit()) * g.dx;
            rc = rs->GetPositionByCoordinate(x, y);
            check(rc.first == row && rc.second == col, "point " + str(x) + "," + str(y) + " maps to " + str(rc.first) + "," + str(rc.second) + " expected " + str(row) + "," + str(col) + " " + tag);
            check(rs->GetPosition(x, y) == rs->GetPosition(row, col), "GetPosition(x,y) at " + str(x) + "," + str(y) + " = " + str(rs->GetPosition(x, y)) + " cell " + str(row) + "," + str(col) + " " + tag);
            if (std::fabs(x) < 1e4 && g.dx >= 0.5) check(rs->GetPosition((float)x, (float)y) == rs->GetPosition(row, col), "GetPosition(float) " + str(x) + "," + str(y) + " " + tag);
        }
    }
    double w = g.cols * g.dx, h = g.rows * g.dx;
    for (int k = 0; k < 20; k++) {   // points outside
        double x = x0 + w * r.unit(), y = y0 + h * r.unit(); int side = (int)r.range(0, 3); double d = g.dx * (0.01 + 3 * r.unit());
        if (side == 0) x = x0 - d; else if (side == 1) x = x0 + w + d; else if (side == 2) y = y0 - d; else y = y0 + h + d;
        ROW_COL rc = rs->GetPositionByCoordinate(x, y);
        check(rc.first == -1 && rc.second == -1, "outside point " + str(x) + "," + str(y) + " maps to " + str(rc.first) + "," + str(rc.second) + " " + tag);
        check(rs->GetPosition(x, y) == -2, "outside point " + str(x) + "," + str(y) + " GetPosition " + str(rs->GetPosition(x, y)) + " " + tag);
    }
    for (int k = 0; k < 20; k++) {   // never an index past the grid, also on the edges
        double x = x0 + g.dx * r.range(0, g.cols), y = y0 + g.dx * r.range(0, g.rows); ROW_COL rc = rs->GetPositionByCoordinate(x, y);
        check((rc.first == -1 && rc.second == -1) || (rc.first >= 0 && rc.first < g.rows && rc.second >= 0 && rc.second < g.cols), "edge point " + str(x) + "," + str(y) + " maps to " + str(rc.first) + "," + str(rc.second) + " " + tag);
    }
    if (g.dx != 0.1 && g.dx != 92.6) for (int i = 0; i <= g.cols; i++) for (int j = 0; j <= g.rows; j++) {   // exact arithmetic: a cell has its left and upper edge
        double x = x0 + g.dx * i, y = y0 + g.dx * (g.rows - j); bool in = i < g.cols && j < g.rows; ROW_COL rc = rs->GetPositionByCoordinate(x, y);
        check(in ? rc.first == j && rc.second == i : rc.first == -1 && rc.second == -1, "edge " + str(x) + "," + str(y) + " maps to " + str(rc.first) + "," + str(rc.second) + " expected cell " + str(j) + "," + str(i) + " " + tag);
        int p = rs->GetPosition(x, y); check(p == (in ? rs->GetPosition(j, i) : -2), "GetPosition on the edge " + str(x) + "," + str(y) + " = " + str(p) + " cell " + str(j) + "," + str(i) + " " + tag);
    }
    STRDBL_MAP h2; h2["NROWS"] = g.rows + 3; h2["NCOLS"] = g.cols + 2; h2["XLLCENTER"] = g.xll - 2 * g.dx; h2["YLLCENTER"] = g.yll - g.dx; h2["CELLSIZE"] = g.dx;
    for (int row = 0; row < g.rows; row++) for (int col = 0; col < g.cols; col++) {
        XY_COOR c = rs->GetCoordinateByRowCol(row, col); ROW_COL rc = rs->GetPositionByCoordinate(c.first, c.second, &h2);
        check(rc.first == row + 2 && rc.second == col + 2, "given header: " + str(row) + "," + str(col) + " maps to " + str(rc.first) + "," + str(rc.second) + " " + tag);
    }
    delete rs;
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { run<float>(r); run<int>(r); }
    return done();
}
