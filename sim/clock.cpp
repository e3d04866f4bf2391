#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "clock.h"
#include "rt.h"
#include <cerrno>
#include <cstring>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/timeb.h>
#include <unistd.h>
namespace simclock {
bool enabled = true;
int64_t wall_ns = 1700000000ll * 1000000000ll;
int64_t mono_ns = 1000ll * 1000000000ll;
uint64_t reads = 0, sleeps = 0;
std::function<void()> on_read;
void tick(uint64_t ns) { wall_ns += (int64_t) ns; mono_ns += (int64_t) ns; sim::add_simtime(ns); }
void jump(int64_t ns) { wall_ns += ns; }
int64_t peek_s() { return wall_ns / 1000000000ll; }
static void after() { reads++; sim::step(1); if (on_read) { std::function<void()> f = on_read; on_read = nullptr; f(); on_read = f; } }
static void doze(int64_t ns) { sleeps++; sim::step(1); tick((uint64_t) (ns < 0 ? 0 : ns)); sim::log("sleep %lld us", (long long) ns / 1000); }
}
using namespace simclock;
extern "C" {
time_t time(time_t* t) {
    time_t r;
    if (!enabled) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else { r = (time_t) (wall_ns / 1000000000ll); after(); }
    if (t) *t = r;
    return r;
}
int gettimeofday(struct timeval* tv, void* tz) {
    if (tz) memset(tz, 0, sizeof(struct timezone));
    if (!enabled) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
    if (tv) { tv->tv_sec = wall_ns / 1000000000ll; tv->tv_usec = wall_ns % 1000000000ll / 1000; }
    after();
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!enabled) return (int) syscall(SYS_clock_gettime, c, ts);
    int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_ns : mono_ns;
    ts->tv_sec = n / 1000000000ll; ts->tv_nsec = n % 1000000000ll;
    after();
    return 0;
}
int ftime(struct timeb* t) { t->time = wall_ns / 1000000000ll; t->millitm = (unsigned short) (wall_ns % 1000000000ll / 1000000); after(); return 0; }
clock_t clock(void) { clock_t r = (clock_t) (mono_ns / 1000); after(); return r; }
int usleep(useconds_t us) { doze((int64_t) us * 1000); return 0; }
int nanosleep(const struct timespec* a, struct timespec* r) { doze(a->tv_sec * 1000000000ll + a->tv_nsec); if (r) { r->tv_sec = 0; r->tv_nsec = 0; } return 0; }
int clock_nanosleep(clockid_t, int fl, const struct timespec* a, struct timespec* r) { (void) r; int64_t n = a->tv_sec * 1000000000ll + a->tv_nsec; doze(fl ? n - mono_ns : n); return 0; }
unsigned int sleep(unsigned int s) { doze((int64_t) s * 1000000000ll); return 0; }
}
