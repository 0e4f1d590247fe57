// C02: releasing arrays and building row arrays out of a packed buffer
#include <unistd.h>
#include "common.h"
#include "alloc.h"
#include "basic.h"
#include "utils_array.h"
using namespace ccgl; using namespace ccgl::utils_array; using namespace drv;
template <class T, class U> void packed(Rng& r, int rows, int maxc, const char* nm) {
    long live0 = g_live; {
    std::vector<int> cn(rows); std::vector<U> buf; buf.push_back((U)rows); int mx = 0;
    for (int i = 0; i < rows; i++) { cn[i] = (int)r.range(0, maxc); mx = std::max(mx, cn[i]); buf.push_back((U)cn[i]); for (int j = 0; j < cn[i]; j++) buf.push_back((U)r.range(-3000, 3000)); }
    std::string tag = std::string("packed ") + nm + " " + arr(buf); at(tag.substr(0, 300)); g_cases++;
    std::vector<U> cp(buf); int orow = -7, ocol = -7; T** d = nullptr;
    // the first row needs one value more than the number of columns only when it has columns
    bool ok = Initialize2DArray(buf.data(), orow, ocol, d);
    check(ok && d != nullptr, "result " + tag); check(buf == cp, "buffer changed " + tag);
    if (ok && d) {
        check(orow == rows, "rows " + str(orow) + " " + tag); check(ocol == mx, "maximum columns " + str(ocol) + " " + tag);
        size_t p = 1; bool good = true; T* q = d[0];
        for (int i = 0; i < rows && good; i++) {
            good = check(d[i] == q, "row " + str(i) + " does not follow its predecessor " + tag);
            for (int j = 0; j <= cn[i] && good; j++) good = check(d[i][j] == (T)cp[p + j], "element " + str(i) + "," + str(j) + " " + tag);
            p += cn[i] + 1; q += cn[i] + 1;
        }
        
        Release2DArray(d); check(d == nullptr, "Release2DArray nulls " + tag); Release2DArray(d); check(d == nullptr, "Release2DArray of null");
    } }
    { long left = g_live - live0; check(left == 0, "blocks leaked: " + str(left)); }
}
template <class T> void rel(Rng& r) {
    long live0 = g_live; { g_cases++; int n = (int)r.range(1, 50), m = (int)r.range(1, 20); at("release " + str(n) + " " + str(m));
    T* a = nullptr; Initialize1DArray(n, a, (T)3); T* b = nullptr; Initialize1DArray(n, b, (T)4); Release1DArray(a); check(a == nullptr, "Release1DArray nulls"); check(b != nullptr && b[n - 1] == (T)4, "other array touched"); Release1DArray(b);
    T** c = nullptr; Initialize2DArray(n, m, c, (T)5); Release2DArray(c); check(c == nullptr, "Release2DArray nulls"); Release2DArray(c); Release1DArray(a);
    } { long left = g_live - live0; check(left == 0, "release leaks " + str(left)); }
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    for (int rows = 1; rows < 12; rows++) for (int mc : {0, 1, 2, 5, 30}) { packed<float, float>(r, rows, mc, "float"); packed<int, int>(r, rows, mc, "int"); packed<int, float>(r, rows, mc, "int,float"); packed<double, float>(r, rows, mc, "double,float"); }
    for (int i = 0; i < 100; i++) { rel<int>(r); rel<float>(r); rel<double>(r); }
    while (g_cases < cases) { int rows = (int)r.range(1, 30), mc = (int)r.range(0, 12); packed<float, float>(r, rows, mc, "float"); packed<int, int>(r, rows, mc, "int"); }
    return done();
}
