// C03: maximum, minimum and sums
#include <unistd.h>
#include "common.h"
#include "basic.h"
#include "utils_math.h"
using namespace ccgl; using namespace ccgl::utils_math; using namespace drv;
template <class T> void one(Rng& r, int n, int mode, const char* nm) {
    std::vector<T> a(n);
    for (auto& x : a) {
        x = (T)(r.range(-1000, 1000) / (mode & 1 ? 1.0 : 8.0));
        if (mode & 2) x = (T)(-std::fabs((double)x) - 1); if (mode & 4) x = (T)(std::fabs((double)x) + 1);
        if (mode == 8) x = (T)(r.coin() ? -9999 : r.range(-3, 3)); if (mode == 9) x = (T)7;
        if (mode == 10) x = (T)(r.range(-1000000, 1000000));
        if (mode == 11) x = r.coin(3) ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
    }
    std::vector<T> c(a);
    std::string tag = std::string(nm) + " " + arr(a); at(tag.substr(0, 300)); g_cases++;
    check(MaxInArray(a.data(), n) == *std::max_element(c.begin(), c.end()), "MaxInArray " + tag);
    check(MinInArray(a.data(), n) == *std::min_element(c.begin(), c.end()), "MinInArray " + tag);
    if (mode == 11) return;
    double s = 0; for (auto x : c) s += (double)x;
    check(close((double)Sum(n, a.data()), s, 1e-5, 1e-3), "Sum " + tag + " = " + str(Sum(n, a.data())) + " expected " + str(s));
    check(Sum(0, a.data()) == (T)0, "Sum of zero elements " + tag);
    int m = (int)r.range(0, 2 * n); std::vector<int> ix(m + 1); double s2 = 0;
    for (int i = 0; i < m; i++) { ix[i] = (int)r.range(0, n - 1); s2 += (double)c[ix[i]]; }
    int* ip = ix.data(); std::vector<int> ic(ix);
    check(close((double)Sum(m, ip, a.data()), s2, 1e-5, 1e-3), "indexed Sum " + tag + " idx " + arr(ix));
    check(a == c && ix == ic && ip == ix.data(), "inputs changed " + tag);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    std::vector<int> ns{1, 2, 3, 4, 5, 8, 16, 63, 64, 65, 100, 128, 1000};
    for (int n : ns) for (int m = 0; m < 12; m++) { one<int>(r, n, m, "int"); one<float>(r, n, m, "float"); one<double>(r, n, m, "double"); one<long>(r, n, m == 11 ? 1 : m, "long"); }
    while (g_cases < cases) { int n = (int)r.range(1, 40), m = (int)r.range(0, 11); one<int>(r, n, m, "int"); one<float>(r, n, m, "float"); one<double>(r, n, m, "double"); }
    return done();
}
