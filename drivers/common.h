// shared by the replay drivers: seeded inputs, hints from the solver's counterexample, failure reporting
#pragma once
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <climits>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <limits>
#include <functional>
namespace drv {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
    // inclusive
    long long range(long long lo, long long hi) { return lo + (long long)((next() >> 11) % (uint64_t)(hi - lo + 1)); }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    bool coin(int n = 2) { return (next() >> 11) % n == 0; }
    template <class V> typename V::value_type pick(const V& v) { return v[(next() >> 11) % v.size()]; }
};
static long g_cases = 0;
static int g_fails = 0;
static std::vector<std::pair<std::string, double> > hints;
static FILE* OUT = nullptr;
inline void init(int argc, char** argv, uint64_t& seed, long& cases) {
    seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    cases = argc > 2 ? atol(argv[2]) : 1000;
    // the code under test writes to stdout; keep the report channel apart
    fflush(stdout);
    int fd = dup(1);
    OUT = fdopen(fd, "w");
    if (!freopen("/dev/null", "w", stdout)) {}
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    if (argc > 3) {
        std::ifstream f(argv[3]); std::string l;
        while (std::getline(f, l)) {
            size_t e = l.find('='); if (e == std::string::npos) continue;
            std::string v = l.substr(e + 1); double d;
            size_t sl = v.find('/');
            d = sl == std::string::npos ? atof(v.c_str()) : atof(v.c_str()) / atof(v.c_str() + sl + 1);
            hints.push_back(std::make_pair(l.substr(0, e), d));
        }
    }
}
inline void at(const std::string& s) { fprintf(OUT, "AT %s\n", s.c_str()); fflush(OUT); }
inline bool check(bool ok, const std::string& what) {
    if (!ok) { if (g_fails < 20) { fprintf(OUT, "FAIL %s\n", what.c_str()); fflush(OUT); } g_fails++; }
    return ok;
}
inline void sample(const std::string& s) { static int n = 0; if (n++ < 4) fprintf(OUT, "SAMPLE %s\n", s.c_str()); }
inline int done() { fprintf(OUT, "CASES %ld\n", g_cases); fflush(OUT); fclose(OUT); _Exit(g_fails ? 1 : 0); }
template <class T> std::string str(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template <class T> std::string arr(const T* a, long n) { std::ostringstream o; o.precision(17); o << "["; for (long i = 0; i < n && i < 40; i++) o << (i ? "," : "") << a[i]; if (n > 40) o << ",..."; o << "]"; return o.str(); }
template <class T> std::string arr(const std::vector<T>& a) { return arr(a.data(), (long)a.size()); }
inline bool close(double a, double b, double rel = 1e-6, double abs = 1e-9) { return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
}
#include <unistd.h>
