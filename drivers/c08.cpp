// C08: instants: shifting, ordering, conversions between local and coordinated time
#include <unistd.h>
#include "common.h"
#include "alloc.h"
#include <ctime>
#include "basic.h"
#include "utils_time.h"
using namespace ccgl; using namespace ccgl::utils_time; using namespace drv;
static void fields(const DateTime& d, const std::string& tag) {
    time_t t = (time_t)(d.filetime / 1000); struct tm x; localtime_r(&t, &x);
    check(d.year == x.tm_year + 1900 && d.month == x.tm_mon + 1 && d.day == x.tm_mday && d.hour == x.tm_hour && d.minute == x.tm_min && d.second == x.tm_sec, "fields do not denote the instant " + tag);
    check(d.day_of_week == x.tm_wday && d.day_of_year == x.tm_yday, "day of week or year " + tag);
    check((long long)(d.filetime % 1000) == d.milliseconds, "milliseconds field " + tag); check(d.total_milliseconds == d.filetime, "total milliseconds " + tag);
}
static void one(Rng& r, const std::string& tz) {
    long live0 = g_live; {
    vuint64_t f = (vuint64_t)r.range(200000000000ll, 4000000000000ll); int ms = r.coin(3) ? (int)r.range(-2000000000, 2000000000) : (int)r.range(0, 100000); if (r.coin(8)) ms = (int)(r.range(0, 3) * 1000);
    std::string tag = "TZ=" + tz + " filetime=" + str(f) + " ms=" + str(ms); at(tag); g_cases++;
    DateTime a = DateTime::FromFileTime(f); check(a.filetime == f, "FromFileTime " + tag + " = " + str(a.filetime)); fields(a, "FromFileTime " + tag);
    DateTime b = a.Forward(ms); check((long long)b.filetime == (long long)f + ms, "Forward " + tag + " = " + str(b.filetime)); fields(b, "Forward " + tag);
    DateTime c = a.Backward(ms); check((long long)c.filetime == (long long)f - ms, "Backward " + tag + " = " + str(c.filetime)); fields(c, "Backward " + tag);
    check(b.Backward(ms) == a && b.Backward(ms).filetime == a.filetime, "Forward then Backward " + tag); check(a.filetime == f, "source changed " + tag);
    check((a < b) == (ms > 0) && (a > b) == (ms < 0) && (a == b) == (ms == 0) && (a != b) == (ms != 0) && (a <= b) == (ms >= 0) && (a >= b) == (ms <= 0), "ordering " + tag);
    DateTime d = DateTime::FromDateTime(a.year, a.month, a.day, a.hour, a.minute, a.second, a.milliseconds); fields(d, "FromDateTime " + tag);
    check(d.year == a.year && d.month == a.month && d.day == a.day && d.hour == a.hour && d.minute == a.minute && d.second == a.second && d.milliseconds == a.milliseconds, "FromDateTime keeps the fields " + tag);
    if (tz == "UTC0") { DateTime u = a.ToUTCTime(), l = a.ToLocalTime(); check(u.filetime == f && l.filetime == f, "conversion in UTC " + tag); fields(u, "ToUTCTime " + tag); fields(l, "ToLocalTime " + tag); }
    else { DateTime u = a.ToUTCTime(), l = a.ToLocalTime(); check(u.milliseconds == a.milliseconds && l.milliseconds == a.milliseconds, "conversion keeps milliseconds " + tag); 
        time_t t = (time_t)(f / 1000); struct tm g; gmtime_r(&t, &g); if (tz == "XXX-8") { check(u.hour == g.tm_hour && u.day == g.tm_mday && u.minute == g.tm_min, "ToUTCTime fields " + tag); check(l.filetime == f + 8 * 3600000ull, "ToLocalTime " + tag + " = " + str(l.filetime)); } }
    } { long left = g_live - live0; check(left == 0, "blocks leaked " + str(left)); }
}
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    for (std::string tz : {"UTC0", "XXX-8", "EST5EDT,M3.2.0,M11.1.0"}) { setenv("TZ", tz.c_str(), 1); tzset(); for (long i = 0; i < cases / 3 + 1; i++) one(r, tz); 
        DateTime l = DateTime::LocalTime(), u = DateTime::UTCTime(); fields(l, "LocalTime"); if (tz == "UTC0") fields(u, "UTCTime"); }
    return done();
}
