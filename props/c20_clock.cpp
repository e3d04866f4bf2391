#include "props/clock_model.h"
#include <memory>
const char* const kPropertyId = "C20";
const char* const kRule = "One run = a time zone (fixed offsets, daylight saving in both hemispheres, half-hour and negative savings), a clock position near a second, day, month, year or daylight-saving boundary, and a history of readings (local, UTC, elapsed, text and date parts), conversions between them, shifts by elapsed time, waits and wall-clock steps; the clock advances by a drawn amount between any two clock reads inside a call. Non-trivial: the clock crossed a second inside a call, or the wall clock was stepped, or daylight saving was in force.";
const char* const kRealComponents = "CCGL utils_time, glibc time zone rules";
const char* const kStubComponents = "wall and monotonic clocks, sleeps";
void prop_init() {}
void prop_run() {
    static const char* tzs[] = {"UTC0", "CST-8", "EST5", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "NST3:30NDT,M3.2.0,M11.1.0", "<+0545>-5:45", "<-12>12", "<+14>-14", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
    const char* tz = tzs[sim::draw(12)];
    setenv("TZ", tz, 1); tzset();
    // clock position
    static const int64_t base[] = {1700000000, 1711846800 /* CET -> CEST 2024 */, 1729990800 /* back */, 1709251200 - 1 /* end of Feb 29 2024 */, 1704067199, 1710054000 /* EST -> EDT 2024 */, 1730613600, 1712419200 /* AEDT -> AEST */, 1728144000, 2147483647, 951782399, 86399, 1720000000, 4102444799ll};
    int64_t t = base[sim::draw(14)]; if (t < 200000) t += 0;
    t += sim::flip(1, 3) ? (int64_t) sim::draw(86400 * 365) : sim::flip(1, 2) ? (int64_t) sim::draw(7200) - 3600 : 0;
    if (t < 200000) t = 200000 + (t < 0 ? 0 : t);
    simclock::wall_ns = t * G + (sim::flip(1, 2) ? (int64_t) (1000 - 1 - sim::draw(20)) * 1000000 + 999000 : (int64_t) sim::draw(1000) * 1000000);
    simclock::mono_ns = (int64_t) sim::draw(1000000) * G + sim::draw(1000) * 1000000;
    bool crossed = false, stepped = false, in_step = sim::flip(1, 5);
    uint32_t lag = sim::draw(4);
    simclock::on_read = [&] {
        int64_t s = simclock::wall_ns / G;
        switch (sim::draw(4)) { case 0: break; case 1: simclock::tick(sim::draw(1000) * 1000); break; case 2: simclock::tick((uint64_t) sim::draw(1000) * 1000000); break; default: simclock::tick((uint64_t) sim::draw(lag ? 3000u * lag : 5) * 1000000); }
        if (simclock::wall_ns / G != s) { crossed = true; sim::probe("second-crossed-in-call"); }
    };
    sim::log("zone %s clock %lld.%09lld", tz, (long long) (simclock::wall_ns / G), (long long) (simclock::wall_ns % G));
    simalloc::start();
    DateTime lastl, lastu; bool havel = false, haveu = false; bool nt = false;
    double e0 = 0; int64_t eb = 0, ea = 0; bool havee = false;
    int steps = sim::range(1, 10);
    for (int i = 0; i < steps; i++) {
        switch (sim::weighted({4, 4, 4, 3, 3, 2, 2, 3})) {
            case 0: case 1: {
                bool utc = sim::flip(1, 2);
                int64_t a = ms(); DateTime d; guarded(utc ? "UTCTime" : "LocalTime", [&] { d = utc ? DateTime::UTCTime() : DateTime::LocalTime(); }); int64_t b = ms();
                sim::log("%s %s", utc ? "utc" : "local", show(d).c_str());
                instant(d, a, b, utc, utc ? "torn-utc" : "torn-local");
                if (!utc && civil(a, false).dst) { nt = true; sim::probe("daylight-saving"); }
                DateTime& last = utc ? lastu : lastl; bool& have = utc ? haveu : havel;
                if (have && (d < last || d.total_milliseconds < last.total_milliseconds)) sim::violate("backwards", "reading %s after %s compares as earlier", show(d).c_str(), show(last).c_str());
                last = d; have = true; break;
            }
            case 2: {
                int64_t b0 = simclock::mono_ns; double e = 0; guarded("TimeCounting", [&] { e = ccgl::utils_time::TimeCounting(); }); int64_t a0 = simclock::mono_ns;
                sim::log("elapsed counter %.6f", e);
                if (havee) {
                    double el = e - e0, lo = (double) (b0 - ea) / 1e9 - 2e-6, hi = (double) (a0 - eb) / 1e9 + 2e-6;
                    if (el < 0) sim::violate("negative-elapsed", "elapsed time is %.6f s", el);
                    if (el < lo || el > hi) sim::violate("wrong-elapsed", "elapsed time is %.6f s, the clock advanced between %.6f and %.6f s", el, lo, hi);
                }
                e0 = e; eb = b0; ea = a0; havee = true; break;
            }
            case 3: { uint64_t d = sim::flip(1, 2) ? sim::draw(5000) * 1000000ull : sim::draw(86400 * 3) * (uint64_t) G; simclock::tick(d); sim::log("wait %llu ms", (unsigned long long) d / 1000000); break; }
            case 4: {   // a reading in one form, converted to the other, is the same instant
                bool utc = sim::flip(1, 2);
                int64_t a = ms(); DateTime d, k; guarded("reading", [&] { d = utc ? DateTime::UTCTime() : DateTime::LocalTime(); }); int64_t b = ms();
                int64_t m = instant(d, a, b, utc, utc ? "torn-utc" : "torn-local");
                guarded(utc ? "ToLocalTime" : "ToUTCTime", [&] { k = utc ? d.ToLocalTime() : d.ToUTCTime(); });
                sim::log("%s -> %s", show(d).c_str(), show(k).c_str());
                if (!fits(k, m, !utc)) sim::violate(utc ? "to-local" : "to-utc", "%s reading %s converts to %s", utc ? "UTC" : "local", show(d).c_str(), show(k).c_str());
                if (civil(m, false).dst) nt = true;
                const DateTime& l = utc ? k : d; DateTime f, g;      // and made again from its parts or its number (local time may name two instants)
                guarded("FromDateTime", [&] { f = DateTime::FromFileTime(l.filetime); g = DateTime::FromDateTime(l.year, l.month, l.day, l.hour, l.minute, l.second, l.milliseconds); });
                if (!fits(f, m, false) || !(f == l)) sim::violate("from-filetime", "the number of %s gives %s", show(l).c_str(), show(f).c_str());
                if (!fits(g, m, false) || (!(g == l) && !fits(g, (int64_t) g.filetime, false))) sim::violate("from-parts", "the parts of %s give %s", show(l).c_str(), show(g).c_str());
                break;
            }
            case 5: {   // shifting an earlier reading by the elapsed time gives the later reading
                int64_t a = ms(); DateTime d, k, f; guarded("reading", [&] { d = DateTime::LocalTime(); }); int64_t m = instant(d, a, ms(), false, "torn-local");
                simclock::tick((uint64_t) (sim::flip(1, 2) ? sim::draw(5000) : sim::draw(20 * 86400)) * (sim::flip(1, 2) ? 1000000ull : 100000000ull));
                a = ms(); guarded("reading", [&] { k = DateTime::LocalTime(); }); int64_t n = instant(k, a, ms(), false, "torn-local");
                if (n - m > 2000000000ll) break;
                bool back = sim::flip(1, 2);
                guarded(back ? "Backward" : "Forward", [&] { f = back ? k.Backward((int) (n - m)) : d.Forward((int) (n - m)); });
                sim::log("%s %lld ms %s", show(d).c_str(), (long long) (n - m), show(f).c_str());
                if (!fits(f, back ? m : n, false) || !(f == (back ? d : k))) sim::violate(back ? "backward" : "forward", "%s shifted by %lld ms gives %s, the reading then was %s", show(back ? k : d).c_str(), (long long) (back ? m - n : n - m), show(f).c_str(), show(back ? d : k).c_str());
                break;
            }
            case 7: {   // the text of the current time (local text: standard time) and its parts denote the same instant
                time_t now = (time_t) (simclock::wall_ns / G); bool utc = sim::flip(1, 3), three = sim::flip(1, 2); string s, day; time_t back = 0, day0 = 0; int y = 0, mo = 0, d = 0, y2, mo2, d2, yd, jd, jd1;
                Civil c = civil(now * 1000, utc); nt |= c.dst; int cy = c.y, cm = c.mo, cd = c.d;
                namespace ut = ccgl::utils_time;
                guarded("text", [&] {
                    s = three ? ut::ConvertToString3(now, utc) : ut::ConvertToString2(now, utc); day = ut::ConvertToString(now, utc);
                    back = ut::ConvertToTime(s, three ? "%4d_%2d_%2d_%2d%2d%2d" : sim::flip(1, 2) ? "%d-%d-%d %d:%d:%d" : "%4d-%2d-%2d %2d:%2d:%2d", true, utc);
                    ut::GetDateInfoFromTimet(now, &y, &mo, &d, utc); y2 = ut::GetYear(now, utc); mo2 = ut::GetMonth(now, utc); d2 = ut::GetDay(now, utc); yd = ut::DayOfYear(now, utc); jd = ut::JulianDay(now, utc); jd1 = ut::JulianDay(c.y, 1, 1);
                    day0 = ut::ConvertYMDToTime(cy, cm, cd, utc);
                });
                sim::log("text %s (%s) -> %lld", s.c_str(), day.c_str(), (long long) back);
                if (back != now) sim::violate("text", "%s time %lld is printed as %s, which is %lld s away", utc ? "UTC" : "local", (long long) now, s.c_str(), (long long) (back - now));
                char b[32]; snprintf(b, sizeof b, "%04d-%02d-%02d", c.y, c.mo, c.d);
                if (day != b) sim::violate("date-text", "%s date of %lld is printed as %s, not %s", utc ? "UTC" : "local", (long long) now, day.c_str(), b);
                if (y != c.y || mo != c.mo || d != c.d || y2 != c.y || mo2 != c.mo || d2 != c.d || yd != c.yd + 1 || jd - jd1 != c.yd) sim::violate("date-parts", "date parts of %s: %d-%d-%d %d-%d-%d, day %d of the year, %d days after New Year", b, y, mo, d, y2, mo2, d2, yd, jd - jd1);
                struct tm q{}; q.tm_year = c.y - 1900; q.tm_mon = c.mo - 1; q.tm_mday = c.d; if (day0 != (utc ? timegm(&q) : mktime(&q))) sim::violate("date-time", "midnight of %s is %lld", b, (long long) day0);
                break;
            }
            default: if (in_step) { int64_t j = ((int64_t) sim::draw(7200) - 3600) * G; simclock::jump(j); if (simclock::wall_ns < 200000 * G) simclock::wall_ns = 200000 * G; sim::log("wall clock stepped by %lld s", (long long) (j / G)); sim::fault_fired(j < 0 ? "clock-step-back" : "clock-step-forward"); havel = haveu = false; stepped = true; }
        }
    }
    simalloc::stop();
    simclock::on_read = nullptr;
    if (crossed || stepped || nt) sim::mark_nontrivial();
}
