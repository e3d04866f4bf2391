// Civil time of instants by independent rules, and whether a reading denotes an instant of a call.
#ifndef PROPS_CLOCK_MODEL_H
#define PROPS_CLOCK_MODEL_H
#include "props/common.h"
#include "utils_time.h"
#include <ctime>
using ccgl::utils_time::DateTime;
static const int64_t G = 1000000000ll;
static int64_t ms() { return simclock::wall_ns / 1000000; }
static string show(const DateTime& d) { char b[160]; snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d.%d (weekday %d, day of year %d, filetime %llu)", d.year, d.month, d.day, d.hour, d.minute, d.second, d.milliseconds, d.day_of_week, d.day_of_year, (unsigned long long) d.filetime); return b; }
// civil time of an instant by the rules of the zone (libc), or by arithmetic for UTC
struct Civil { int y, mo, d, h, mi, s, ms, wd, yd; bool dst; };
static Civil civil(int64_t m, bool utc) {
    Civil c{}; c.ms = (int) (m % 1000); int64_t t = m / 1000;
    if (utc) {
        int64_t days = t / 86400, r = t % 86400; c.h = (int) (r / 3600); c.mi = (int) (r / 60 % 60); c.s = (int) (r % 60); c.wd = (int) ((days + 4) % 7);
        int64_t z = days + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
        c.d = (int) (doy - (153 * mp + 2) / 5 + 1); c.mo = (int) (mp < 10 ? mp + 3 : mp - 9); c.y = (int) (yoe + era * 400 + (c.mo <= 2));
        bool leap = c.y % 4 == 0 && (c.y % 100 || c.y % 400 == 0); static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
        c.yd = cum[c.mo - 1] + c.d - 1 + (leap && c.mo > 2);
    } else { struct tm q; time_t tt = (time_t) t; localtime_r(&tt, &q); c.y = q.tm_year + 1900; c.mo = q.tm_mon + 1; c.d = q.tm_mday; c.h = q.tm_hour; c.mi = q.tm_min; c.s = q.tm_sec; c.wd = q.tm_wday; c.yd = q.tm_yday; c.dst = q.tm_isdst > 0; }
    return c;
}
static bool fits(const DateTime& d, int64_t m, bool utc) {
    Civil c = civil(m, utc);
    return d.year == c.y && d.month == c.mo && d.day == c.d && d.hour == c.h && d.minute == c.mi && d.second == c.s && d.milliseconds == c.ms && d.day_of_week == c.wd && d.day_of_year == c.yd;
}
// the instant in [a,b] a reading denotes; violation if none
static int64_t instant(const DateTime& d, int64_t a, int64_t b, bool utc, const char* what) {
    for (int64_t s = a / 1000; s <= b / 1000; s++) { int64_t m = s * 1000 + d.milliseconds; if (d.milliseconds >= 0 && d.milliseconds <= 999 && m >= a && m <= b && fits(d, m, utc)) return m; }
    Civil c = civil(a, utc), e = civil(b, utc);
    sim::violate(what, "%s is no instant of the call, which ran from %04d-%02d-%02d %02d:%02d:%02d.%03d to %04d-%02d-%02d %02d:%02d:%02d.%03d", show(d).c_str(), c.y, c.mo, c.d, c.h, c.mi, c.s, c.ms, e.y, e.mo, e.d, e.h, e.mi, e.s, e.ms);
}
#endif
