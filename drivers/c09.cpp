// C09: looking up a row and a column
#include "rasters.h"
template <class T> void run(Rng& r) {
    g_cases++; Grid<T> g = Grid<T>::make(r, r.coin()); bool pos = !r.coin(3); at(g.tag()); auto* rs = g.raster();
    if (pos) rs->SetCalcPositions();
    std::vector<int> p = g.pos();
    for (int row = -1; row <= g.rows; row++) for (int col = -1; col <= g.cols; col++) {
        int want = -2;
        if (row >= 0 && row < g.rows && col >= 0 && col < g.cols) { want = row * g.cols + col; if (pos) { auto it = std::lower_bound(p.begin(), p.end(), want); want = it != p.end() && *it == want ? int(it - p.begin()) : -1; } }
        check(rs->GetPosition(row, col) == want, "GetPosition(" + str(row) + "," + str(col) + ") = " + str(rs->GetPosition(row, col)) + " expected " + str(want) + (pos ? " positions " : " full ") + g.tag());
    }
    for (int big : {INT_MAX, INT_MIN}) { check(rs->GetPosition(big, 0) == -2 && rs->GetPosition(0, big) == -2, "extreme row/col " + g.tag()); }
    delete rs;
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { run<float>(r); run<int>(r); }
    return done();
}
