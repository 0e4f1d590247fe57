// C28: looking up and removing values in a vector
#include "common.h"
#include <algorithm>
#include "basic.h"
#include "utils_array.h"
using namespace ccgl; using namespace ccgl::utils_array; using namespace drv;
template <class T> void run(Rng& r, T unit) {
    g_cases++; int n = (int)r.range(0, 12), span = (int)r.range(1, 5); std::vector<T> v(n); for (auto& x : v) x = (T)(r.range(-span, span)) * unit;
    T val = n && r.coin() ? r.pick(v) : (T)(r.range(-span, span)) * unit; bool alias = n && r.coin(4); int ai = alias ? (int)r.range(0, n - 1) : 0; if (alias) val = v[ai];
    std::string tag = arr(v) + " value " + str(val) + (alias ? " (the element itself)" : ""); at(tag);
    std::vector<T> want; bool in = false; for (auto x : v) { if (x == val) in = true; else want.push_back(x); }
    std::vector<T> w = v; check(ValueInVector(val, w) == in && w == v, "ValueInVector " + tag);
    if (alias) RemoveValueInVector(w[ai], w); else RemoveValueInVector(val, w);
    check(w == want, "RemoveValueInVector gives " + arr(w) + " for " + tag);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    while (g_cases < cases) { run<int>(r, 1); run<float>(r, 0.5f); run<double>(r, 0.1); }
    return done();
}
