// C04: basic statistics over the valid cells
#include <unistd.h>
#include "common.h"
#include "alloc.h"
#include "basic.h"
#include "utils_math.h"
using namespace ccgl; using namespace ccgl::utils_math; using namespace drv;
struct S { double n, mean, mx, mn, sd, rg; };
template <class T> S ref(const std::vector<T>& v, T ex) {
    S s{0, 0, 0, 0, 0, 0}; long double sum = 0; bool first = true;
    for (T x : v) { if (x == ex) continue; s.n++; sum += x; if (first || x > s.mx) s.mx = x; if (first || x < s.mn) s.mn = x; first = false; }
    if (s.n == 0) return s;
    s.mean = (double)(sum / s.n); long double q = 0; for (T x : v) if (x != ex) q += ((long double)x - s.mean) * ((long double)x - s.mean);
    s.sd = (double)sqrtl(q / s.n); s.rg = s.mx - s.mn; return s;
}
template <class T> T gen(Rng& r, int mode, T ex) {
    if (mode != 6 && r.coin(4)) return ex;
    if (mode == 0) return (T)r.range(-100, 100);
    if (mode == 1) return (T)(r.range(-100000, 100000) / 64.0);
    if (mode == 2) return (T)(-r.range(1, 5000));
    if (mode == 3) return (T)(r.range(1, 5000));
    if (mode == 4) return (T)r.range(-10000, -9998);
    if (mode == 5) return (T)(r.coin() ? 1 : 0);
    return (T)r.range(-20, 20);
}
template <class T> void chk(const double* o, const S& s, const std::string& tag) {
    check(o[0] == s.n, "count " + tag + " got " + str(o[0]) + " want " + str(s.n));
    if (s.n == 0) return;
    check(close(o[1], s.mean, 1e-9, 1e-7), "mean " + tag + " got " + str(o[1]) + " want " + str(s.mean));
    check(o[2] == s.mx, "maximum " + tag + " got " + str(o[2]) + " want " + str(s.mx));
    check(o[3] == s.mn, "minimum " + tag + " got " + str(o[3]) + " want " + str(s.mn));
    check(close(o[4], s.sd, 1e-7, 1e-6), "standard deviation " + tag + " got " + str(o[4]) + " want " + str(s.sd));
    check(o[5] == o[2] - o[3], "range " + tag + " got " + str(o[5]));
}
template <class T> void one(Rng& r, int n, int ly, int mode, T ex, const char* nm) {
    long live0 = g_live; {
    std::vector<T> a(n); for (auto& x : a) x = gen<T>(r, mode, ex);
    std::string tag = std::string(nm) + " exclude=" + str(ex) + " " + arr(a); at(tag.substr(0, 300)); g_cases++;
    std::vector<T> cp(a); double* o = nullptr; BasicStatistics(a.data(), n, &o, ex); check(a == cp, "input changed " + tag);
    chk<T>(o, ref(cp, ex), "1D " + tag); delete[] o;
    std::vector<std::vector<T> > v(n, std::vector<T>(ly)); std::vector<T*> p(n); std::vector<T> flat;
    for (int i = 0; i < n; i++) { for (auto& x : v[i]) { x = gen<T>(r, mode, ex); flat.push_back(x); } p[i] = v[i].data(); }
    std::string t2 = std::string(nm) + " cells=" + str(n) + " layers=" + str(ly) + " exclude=" + str(ex) + " " + arr(flat);
    double** q = nullptr; BasicStatistics((const T* const*)p.data(), n, ly, &q, ex);
    for (int j = 0; j < ly; j++) { std::vector<T> c; for (int i = 0; i < n; i++) { c.push_back(v[i][j]); check(v[i][j] == flat[i * ly + j], "2D input changed " + t2); } double w[6]; for (int k = 0; k < 6; k++) w[k] = q[k][j]; chk<T>(w, ref(c, ex), "2D layer " + str(j) + " " + t2); }
    for (int k = 0; k < 6; k++) delete[] q[k]; delete[] q; }
    { long left = g_live - live0; check(left == 0, "blocks leaked " + str(left)); }
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) {
        int n = (int)r.range(1, g_cases % 50 == 0 ? 400 : 14), ly = (int)r.range(1, 5), mode = (int)r.range(0, 6);
        one<int>(r, n, ly, mode, r.coin() ? -9999 : (int)r.range(-3, 3), "int"); one<float>(r, n, ly, mode, r.coin() ? -9999.f : (float)r.range(-3, 3), "float");
        one<double>(r, n, ly, mode, r.coin() ? -9999. : (double)r.range(-3, 3), "double");
    }
    return done();
}
