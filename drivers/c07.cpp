// C07: calendar arithmetic
#include <unistd.h>
#include "common.h"
#include <ctime>
#include "basic.h"
#include "utils_time.h"
using namespace ccgl; using namespace ccgl::utils_time; using namespace drv;
static bool leap(long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(int m, long long y) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && leap(y)); }
// independent: count whole years and months from 1970-01-01
static long long days(int y, int m, int d) {
    long long n = 0; for (int i = 1970; i < y; i++) n += leap(i) ? 366 : 365; for (int i = y; i < 1970; i++) n -= leap(i) ? 366 : 365;
    for (int i = 1; i < m; i++) n += mdays(i, y); return n + d - 1;
}
static void day(int y, int m, int d, Rng& r) {
    std::string tag = str(y) + "-" + str(m) + "-" + str(d); at(tag); g_cases++;
    long long n = days(y, m, d); int doy = (int)(n - days(y, 1, 1)) + 1;
    check(JulianDay(y, m, d) == n + 2440588, "JulianDay " + tag + " = " + str(JulianDay(y, m, d)));
    check(DayOfYear(y, m, d) == doy, "DayOfYear " + tag + " = " + str(DayOfYear(y, m, d)));
    int yy = y, mm = m, dd = d; time_t t = ConvertYMDToTime(yy, mm, dd, true);
    check((long long)t == n * 86400, "ConvertYMDToTime " + tag + " = " + str((long long)t)); check(yy == y && mm == m && dd == d, "ConvertYMDToTime changed its arguments " + tag);
    time_t s = t + r.range(0, 86399);
    check(GetYear(s) == y && GetMonth(s) == m && GetDay(s) == d, "GetYear/Month/Day " + tag + " second " + str((long long)s) + " = " + str(GetYear(s)) + "-" + str(GetMonth(s)) + "-" + str(GetDay(s)));
    check(DayOfYear(s) == doy, "DayOfYear(date) " + tag); check(JulianDay(s) == n + 2440588, "JulianDay(date) " + tag);
    if (y >= 1000 && y <= 9999) {
        int a = 0, b = 0, c = 0; GetDateInfoFromTimet(s, &a, &b, &c); check(a == y && b == m && c == d, "GetDateInfoFromTimet " + tag);
        char buf[64]; snprintf(buf, sizeof buf, "%04d-%02d-%02d", y, m, d); check(ConvertToString(s) == buf, "ConvertToString " + tag + " = " + ConvertToString(s));
        check(ConvertToTime(buf, "%d-%d-%d", false) == t, "ConvertToTime " + tag);
        int h = (int)((s - t) / 3600), mi = (int)((s - t) / 60 % 60), se = (int)((s - t) % 60); snprintf(buf, sizeof buf, "%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, mi, se);
        check(ConvertToString2(s) == buf, "ConvertToString2 " + std::string(buf) + " = " + ConvertToString2(s)); check(ConvertToTime(buf, "%d-%d-%d %d:%d:%d", true) == s, "ConvertToTime with hour " + std::string(buf));
        snprintf(buf, sizeof buf, "%04d_%02d_%02d_%02d%02d%02d", y, m, d, h, mi, se); check(ConvertToString3(s) == buf, "ConvertToString3 " + std::string(buf) + " = " + ConvertToString3(s));
    }
    struct tm x; memset(&x, 0, sizeof x); GetDateTime(s, &x, true); check(x.tm_year + 1900 == y && x.tm_mon + 1 == m && x.tm_mday == d, "GetDateTime " + tag);
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed); setenv("TZ", "UTC0", 1); tzset();
    for (int y = 0; y <= 12000; y++) { check(IsLeapYear(y) == leap(y), "IsLeapYear " + str(y)); }
    for (auto& h : hints) if (h.second > 1 && h.second < 12000) for (int m = 1; m <= 12; m++) { day((int)h.second, m, 1, r); day((int)h.second, m, mdays(m, (int)h.second), r); }
    for (int y : {4, 100, 400, 1600, 1700, 1899, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2038, 2100, 2400, 4000, 9999})
        for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(m, y); d++) day(y, m, d, r);
    for (long n = 0; n < cases; n++) { int y = (int)r.range(1, 9999), m = (int)r.range(1, 12); day(y, m, (int)r.range(1, mdays(m, y)), r); }
    return done();
}
