#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "alloc.h"
#include "rt.h"
#include "thr.h"
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
namespace simalloc {
bool counting = false, fail_sticky = false, fail_throwing = false;
int64_t fail_nth = -1;
size_t limit = (size_t) 1 << 30;
uint64_t made = 0, failed = 0;
enum { N = 1 << 16 };
static struct Slot { void* p; size_t n; } tab[N];
static int64_t nlive = 0; static size_t nbytes = 0;
static unsigned hs(void* p) { return (unsigned) (((uintptr_t) p * 0x9e3779b97f4a7c15ull) >> 44) & (N - 1); }
static void add(void* p, size_t n) {
    unsigned i = hs(p);
    for (int k = 0; k < N; k++, i = (i + 1) & (N - 1)) if (!tab[i].p || tab[i].p == (void*) 1) { tab[i].p = p; tab[i].n = n; nlive++; nbytes += n; return; }
}
static void del(void* p) {
    if (!p || nlive == 0) return;
    unsigned i = hs(p);
    for (int k = 0; k < N; k++, i = (i + 1) & (N - 1)) {
        if (!tab[i].p) return;
        if (tab[i].p == p) { tab[i].p = (void*) 1; nlive--; nbytes -= tab[i].n; return; }
    }
}
int64_t live_arrays() { return nlive; }
size_t live_bytes() { return nbytes; }
void start() { memset(tab, 0, sizeof tab); nlive = 0; nbytes = 0; counting = true; made = failed = 0; fail_nth = -1; fail_sticky = fail_throwing = false; }
void stop() { counting = false; fail_nth = -1; }
static bool fails(size_t n, bool throwing) {
    if (n > limit) { failed++; sim::log("allocation of %zu bytes refused", n); sim::fault_fired("alloc:too-large"); return true; }
    if (throwing && !fail_throwing) return false;
    if (fail_nth < 0) return false;
    if (fail_nth == 0) {
        if (!fail_sticky) fail_nth = -1;
        failed++;
        sim::log("FAULT allocation of %zu bytes fails", n);
        sim::fault_fired(throwing ? "alloc:new" : "alloc:new[]-nothrow");
        return true;
    }
    fail_nth--;
    return false;
}
}
using namespace simalloc;
extern "C" {
void* __real__Znam(size_t); void* __real__Znwm(size_t); void* __real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t&); void* __real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t&);
void __real__ZdaPv(void*); void __real__ZdaPvm(void*, size_t);
void* __wrap__Znam(size_t n) {
    if (fails(n, true)) throw std::bad_alloc();
    void* p = __real__Znam(n);
    memset(p, sim::fill_byte(), n);
    made++; if (counting) add(p, n);
    simthr::mem_reused(p, n);
    return p;
}
void* __wrap__Znwm(size_t n) {          // objects and containers, the simulator's own among them: never fail
    void* p = __real__Znwm(n);
    memset(p, sim::fill_byte(), n);
    simthr::mem_reused(p, n);
    return p;
}
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t& t) {
    if (fails(n, false)) return nullptr;
    void* p = __real__ZnamRKSt9nothrow_t(n, t);
    if (!p) return p;
    memset(p, sim::fill_byte(), n);
    made++; if (counting) add(p, n);
    simthr::mem_reused(p, n);
    return p;
}
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t& t) {
    if (fails(n, false)) return nullptr;
    void* p = __real__ZnwmRKSt9nothrow_t(n, t);
    if (p) memset(p, sim::fill_byte(), n);
    return p;
}
void __wrap__ZdaPv(void* p) { del(p); __real__ZdaPv(p); }
void __wrap__ZdaPvm(void* p, size_t n) { del(p); __real__ZdaPvm(p, n); }
}
