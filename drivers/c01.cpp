// C01: array initialisers against their contracts
#include <unistd.h>
#include "common.h"
#include "alloc.h"
#include "basic.h"
#include "utils_array.h"
using namespace ccgl; using namespace ccgl::utils_array; using namespace drv;
template <class T, class U> void one(Rng& r, int row, int col, const char* nm) {
    std::string tag = std::string(nm) + " row=" + str(row) + " col=" + str(col);
    at(tag); g_cases++; long live0 = g_live;
    {
    U iv = (U)r.range(-1000, 1000); if (r.coin(4)) iv = (U)-9999; if (r.coin(6)) iv = (U)(iv + (U)0.5);
    {   // 1D value
        T* d = nullptr; bool ok = Initialize1DArray(row, d, iv);
        check(ok == (row > 0), "1D value result " + tag); check((d != nullptr) == ok, "1D value pointer " + tag);
        if (ok) { for (int i = 0; i < row; i++) if (!check(d[i] == (T)iv, "1D value element " + str(i) + " " + tag + " init=" + str(iv))) break; }
        T* keep = d;
        if (d) { T f = d[0]; bool again = Initialize1DArray(row, d, (U)(iv + 1)); check(!again && d == keep && d[0] == f, "1D value must refuse a live pointer " + tag);
                 std::vector<U> q(row, (U)1); again = Initialize1DArray(row, d, q.data()); check(!again && d == keep && d[0] == f, "1D array must refuse a live pointer " + tag); }
        Release1DArray(d); check(d == nullptr, "Release1DArray nulls " + tag); Release1DArray(d); check(d == nullptr, "Release1DArray of null " + tag);
    }
    {   // 1D array
        std::vector<U> src(std::max(row, 1)); for (auto& x : src) x = (U)(r.range(-100000, 100000) / (r.coin() ? 1 : 8.0));
        std::vector<U> cp(src); T* d = nullptr;
        if (row > 0) {
            bool ok = Initialize1DArray(row, d, src.data()); check(ok && d, "1D array result " + tag); check(src == cp, "1D array source changed " + tag);
            if (ok) for (int i = 0; i < row; i++) if (!check(d[i] == (T)src[i], "1D array element " + str(i) + " " + tag)) break;
            Release1DArray(d);
        }
        T* e = nullptr; bool ok = Initialize1DArray(row, e, (U*)nullptr); check(!ok && e == nullptr, "1D array null source must fail without a block " + tag);
    }
    {   // 2D value
        if (row > 0 && col >= 0) {
            T** d = nullptr; bool ok = Initialize2DArray(row, col, d, iv);
            check(ok && d, "2D value result " + tag);
            if (ok) {
                bool good = true;
                for (int i = 0; i < row && good; i++) { good = check(d[i] == d[0] + (long)i * col, "2D rows are successive " + str(i) + " " + tag); for (int j = 0; j < col && good; j++) good = check(d[i][j] == (T)iv, "2D value element " + str(i) + "," + str(j) + " " + tag); }
                T** keep = d; check(!Initialize2DArray(row, col, d, iv) && d == keep, "2D value must refuse a live pointer " + tag);
                Release2DArray(d); check(d == nullptr, "Release2DArray nulls " + tag);
            }
        }
    }
    if (row > 0 && col >= 0) for (int k = 1; k <= 3; k++) {   // failing allocations
        T** d = nullptr; g_fail_at = k; bool ok = Initialize2DArray(row, col, d, iv); bool hit = g_fail_at == 0; g_fail_at = 0;
        check(ok == !hit, "2D value with failing allocation " + str(k) + " result " + tag); check((d != nullptr) == ok, "2D value pointer after failing allocation " + str(k) + " " + tag);
        if (d && ok) Release2DArray(d);
        T* e = nullptr; g_fail_at = k; ok = Initialize1DArray(row, e, iv); hit = g_fail_at == 0; g_fail_at = 0;
        check(ok == !hit && (e != nullptr) == ok, "1D value with failing allocation " + tag); Release1DArray(e);
        std::vector<U> q(row, (U)1); g_fail_at = k; ok = Initialize1DArray(row, e, q.data()); hit = g_fail_at == 0; g_fail_at = 0;
        check(ok == !hit && (e != nullptr) == ok, "1D array with failing allocation " + tag); Release1DArray(e);
    }
    if (row > 0 && col > 0) {   // 2D array
        U** s = new U*[row]; for (int i = 0; i < row; i++) { s[i] = new U[col]; for (int j = 0; j < col; j++) s[i][j] = (U)(r.range(-5000, 5000) / (r.coin() ? 1 : 4.0)); }
        T** d = nullptr; bool ok = Initialize2DArray(row, col, d, s); check(ok && d, "2D array result " + tag);
        if (ok) { bool good = true; for (int i = 0; i < row && good; i++) for (int j = 0; j < col && good; j++) good = check(d[i][j] == (T)s[i][j], "2D array element " + str(i) + "," + str(j) + " " + tag); }
        T** keep = d; check(!Initialize2DArray(row, col, d, s) && d == keep, "2D array must refuse a live pointer " + tag);
        Release2DArray(d); for (int i = 0; i < row; i++) delete[] s[i]; delete[] s;
    }
    }
    long left = g_live - live0; check(left == 0, "blocks leaked: " + str(left) + " " + tag);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    std::vector<int> rows{1, 2, 3, 7, 0, -1, -5, 64, 255, 256, 257, 1000, 1024, 4096, 5000};
    for (auto& h : hints) if (std::fabs(h.second) < 20000) rows.push_back((int)h.second);
    for (int a : rows) for (int b : {1, 2, 3, 0, -1, 17}) { one<int, int>(r, a, b, "int,int"); one<float, float>(r, a, b, "float,float"); one<int, float>(r, a, b, "int,float"); one<float, int>(r, a, b, "float,int"); one<double, float>(r, a, b, "double,float"); one<double, double>(r, a, b, "double,double"); one<short, int>(r, a, b, "short,int"); }
    while (g_cases < cases) { int a = (int)r.range(-2, 40), b = (int)r.range(-1, 30); one<int, int>(r, a, b, "int,int"); one<float, float>(r, a, b, "float,float"); one<double, float>(r, a, b, "double,float"); one<int, float>(r, a, b, "int,float"); }
    return done();
}
