#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "thr.h"
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
extern "C" void __sanitizer_start_switch_fiber(void**, const void*, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif
namespace __cxxabiv1 { struct __cxa_eh_globals; }
extern "C" __cxxabiv1::__cxa_eh_globals* __cxa_get_globals();

namespace simthr {
int default_threads = 4, nprocs = 4, policy = SYNC_POINTS;
uint32_t burst = 100;
bool races = false, dynamic_teams = false;
uint64_t switches = 0, preemptions = 0, teams = 0, accesses = 0, sched_hash = 1469598103934665603ull;

struct Team;
typedef std::vector<uint32_t> VC;
struct Co {
    std::string label;               // what the code under test is doing in this thread
    int id = 0;
    void* sp = nullptr;
    char* stack = nullptr; size_t ssize = 0;
    std::function<void()> fn;
    std::string name;
    bool done = false, blocked = false, started = false;
    bool spin = false;               // waits for something another thread releases
    std::vector<int> freeids;        // of joined children
    Team* team = nullptr; int tnum = 0;
    uint32_t ws_seq = 0;       // worksharing constructs entered in this team
    long it_lo = 0, it_hi = 0; // static chunk bookkeeping
    long st_next = 0; int st_chunkno = 0; void* cur_ws = nullptr;
    int nthreads_icv = 0;
    VC vc;
    char eh[16]; int err = 0;
    std::vector<char> tls;
    void* fake = nullptr;
    const void* asan_bottom = nullptr; size_t asan_size = 0;
};
struct Ws { bool init = false; long lo = 0, hi = 0, step = 1, chunk = 1, next = 0; int kind = 0; int n_in = 0; bool single_taken = false; void* copy = nullptr; long ordered_next = 0; int sections = 0, sec_next = 1; VC vc; };
struct Team {
    int n = 1; void (*fn)(void*) = nullptr; void* data = nullptr;
    int arrived = 0; uint32_t gen = 0;
    std::map<uint32_t, Ws> ws;
    int finished = 0; Co* waiting = nullptr;
    VC barvc, joinvc;
    Team* parent_team = nullptr; int parent_tnum = 0; uint32_t parent_seq = 0; void* parent_ws = nullptr;
};
static Co g_main;
static Co* cur = &g_main;
static std::vector<Co*>& cos() { alignas(16) static char b[sizeof(std::vector<Co*>)]; static std::vector<Co*>* v; if (!v) v = new (b) std::vector<Co*>(); return *v; }  // live coroutines besides the one that is g_main
static std::vector<char*>& freestacks() { alignas(16) static char b[sizeof(std::vector<char*>)]; static std::vector<char*>* v; if (!v) v = new (b) std::vector<char*>(); return *v; }
enum { STACK = 4 << 20, NSTACK = 256 };
static char* g_arena = nullptr; static int g_nstacks = 0; static uint32_t g_epoch[NSTACK];       // stacks; how often each was given out
static char* new_stack() {
    if (!g_arena) g_arena = (char*) mmap(nullptr, (size_t) STACK * NSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_nstacks == NSTACK) sim::give_up("given-up:too-many-threads");
    return g_arena + (size_t) STACK * g_nstacks++;
}
static int g_nextid = 1;
static int64_t countdown = 1 << 30;

// ---- context switch --------------------------------------------------------
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
extern "C" void sim_switch(void** save, void* to);

// ---- thread-local storage: of the executable, and of the libraries that keep state between calls ------------
struct Tls { char* p; size_t sz; const char* init; size_t fsz; };
static char* g_tls = nullptr; static size_t g_tlssz = 0;      // the executable's
static Tls g_mods[64]; static int g_nmods = 0; static size_t g_tlsall = 0;
static uintptr_t g_tlslo = 0;
static int tls_cb(struct dl_phdr_info* i, size_t, void* first) {
    if (i->dlpi_tls_data) { uintptr_t a = (uintptr_t) i->dlpi_tls_data, tp = (uintptr_t) __builtin_thread_pointer(); if (a < tp && tp - a < 65536 && (!g_tlslo || a < g_tlslo)) g_tlslo = a; }
    bool exe = *(int*) first == 0; ++*(int*) first;
    if (!exe) { const char* n = i->dlpi_name; if (!n || strstr(n, "/libc.so") || strstr(n, "ld-linux") || strstr(n, "libstdc++") || strstr(n, "libgcc_s") || strstr(n, "libasan")) return 0;
#ifndef SIM_VARIANT_RACE
        return 0;
#endif
    }
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && g_nmods < 64) {
            Tls t = {(char*) i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz, (const char*) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz};
            if (exe) { g_tls = t.p; g_tlssz = t.sz; }
            g_mods[g_nmods++] = t; g_tlsall += t.sz;
        }
    return 0;
}
static void tls_find() { static bool d = false; if (!d) { d = true; int n = 0; dl_iterate_phdr(tls_cb, &n); } }
static void tls_save(std::vector<char>& v) { v.resize(g_tlsall); char* q = v.data(); for (int i = 0; i < g_nmods; i++) { memcpy(q, g_mods[i].p, g_mods[i].sz); q += g_mods[i].sz; } }
static void tls_load(const std::vector<char>& v) { const char* q = v.data(); for (int i = 0; i < g_nmods; i++) { memcpy(g_mods[i].p, q, g_mods[i].sz); q += g_mods[i].sz; } }
static void tls_fresh() { for (int i = 0; i < g_nmods; i++) { memset(g_mods[i].p, 0, g_mods[i].sz); memcpy(g_mods[i].p, g_mods[i].init, g_mods[i].fsz); } }

static void vcjoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
static uint32_t& clk(Co* c) { if ((int) c->vc.size() <= c->id) c->vc.resize(c->id + 1, 0); return c->vc[c->id]; }
static void tickc(Co* c) { clk(c)++; }
static int nlive() { return 1 + (int) cos().size(); }
int live() { return nlive(); }
int self() { return cur->id; }

static void entry();
static void switch_to(Co* to) {
    if (to == cur) return;
    Co* from = cur;
    switches++;
    sched_hash = (sched_hash ^ (uint64_t) to->id) * 1099511628211ull;
    from->err = errno;
    from->label = sim::get_ctx(); sim::ctx(to->label.c_str());
    memcpy(from->eh, (void*) __cxa_get_globals(), 16);
    if (g_tlsall) tls_save(from->tls);
    cur = to;
    memcpy((void*) __cxa_get_globals(), to->eh, 16);
    if (g_tlsall && !to->tls.empty()) tls_load(to->tls);
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&from->fake, to->asan_bottom, to->asan_size);
#endif
    sim_switch(&from->sp, to->sp);
    // back in `from`
#ifdef SIM_ASAN
    { const void* b; size_t s; __sanitizer_finish_switch_fiber(from->fake, &b, &s); (void) b; (void) s; }
#endif
    errno = from->err;
}
static void fill_runnable(std::vector<Co*>& r) {
    r.clear();
    if (!cur->blocked && !cur->done) r.push_back(cur);
    if (cur != &g_main && !g_main.blocked) r.push_back(&g_main);
    for (Co* c : cos()) if (c != cur && !c->blocked && !c->done) r.push_back(c);
}
static void reschedule() {     // pick the next thread; current one may be blocked or done
    sim::step(1);
    std::vector<Co*> r;
    fill_runnable(r);
    if (r.empty()) { std::string c = std::string("deadlock@") + sim::get_ctx(); sim::violate(c.c_str(), "no virtual thread can run: deadlock"); }
    Co* to = r[r.size() > 1 ? sim::draw((uint32_t) r.size()) : 0];
    switch_to(to);
}
bool yield() {
    if (nlive() == 1) return false;
    uint64_t s = switches;
    if (policy != RUN_TO_BLOCK) reschedule();
    return switches != s;
}
static uint64_t g_idle = 0;            // waits since something was last released
static void released() { g_idle = 0; for (Co* c : cos()) if (c->spin) c->spin = c->blocked = false; if (g_main.spin) g_main.spin = g_main.blocked = false; if (cur->spin) cur->spin = cur->blocked = false; }
static void other() {                  // wait until another thread releases something
    sim::step(1);
    if (++g_idle > 200 + 20 * (uint64_t) nlive()) { std::string c = std::string("deadlock@") + sim::get_ctx(); sim::violate(c.c_str(), "a lock is never released"); }
    std::vector<Co*> r; cur->spin = cur->blocked = true;
    fill_runnable(r);
    if (r.empty()) { for (Co* c : cos()) if (c->spin && c != cur) c->spin = c->blocked = false; if (cur != &g_main && g_main.spin) g_main.spin = g_main.blocked = false; fill_runnable(r); }
    if (r.empty()) { std::string c = std::string("deadlock@") + sim::get_ctx(); sim::violate(c.c_str(), "no virtual thread can run: deadlock"); }
    Co* me = cur;
    switch_to(r[r.size() > 1 ? sim::draw((uint32_t) r.size()) : 0]);
    me->spin = me->blocked = false;
}
static void block() { cur->blocked = true; while (cur->blocked) reschedule(); }
static void rearm() {
    if (policy != ACCESSES) { countdown = INT64_MAX; return; }
    uint32_t m = sim::draw(4) == 0 ? burst * 8 : burst * 2;
    countdown = 1 + (int64_t) (m ? sim::draw(m) : 0);
    if (countdown == 1 && burst > 4) countdown = burst * 2;   // tape exhausted: rare pre-emption
}
static void clear_shadow();
static void entry() {
#ifdef SIM_ASAN
    { const void* b; size_t s; __sanitizer_finish_switch_fiber(cur->fake, &b, &s); if (!g_main.asan_bottom) { g_main.asan_bottom = b; g_main.asan_size = s; } }
#endif
    Co* me = cur;
    if (g_tlsall) tls_fresh();
    errno = 0;
    me->fn();
    me->done = true;
    auto& v = cos();
    v.erase(std::find(v.begin(), v.end(), me));
    // never returns: the stack is recycled by whoever joins
    while (true) {
        std::vector<Co*> r;
        if (!g_main.blocked) r.push_back(&g_main);
        for (Co* c : v) if (!c->blocked && !c->done) r.push_back(c);
        if (r.empty()) { std::string c = std::string("deadlock@") + sim::get_ctx(); sim::violate(c.c_str(), "no virtual thread can run: deadlock"); }
        switch_to(r[r.size() > 1 ? sim::draw((uint32_t) r.size()) : 0]);
    }
}
static Co* make(std::function<void()> f, const char* name) {
    tls_find();
    Co* c = new Co();
    if (!cur->freeids.empty()) { c->id = cur->freeids.back(); cur->freeids.pop_back(); } else c->id = g_nextid++;
    c->fn = f; c->name = name; c->label = sim::get_ctx();
    c->nthreads_icv = cur->nthreads_icv;
    memset(c->eh, 0, sizeof c->eh);
    if (!freestacks().empty()) { c->stack = freestacks().back(); freestacks().pop_back(); }
    else c->stack = new_stack();
    g_epoch[(c->stack - g_arena) / STACK]++;
    c->ssize = STACK;
    c->asan_bottom = c->stack; c->asan_size = STACK;
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(c->stack, STACK);
#endif
    char* top = c->stack + STACK - 64;
    uint64_t* sp = (uint64_t*) ((uintptr_t) top & ~15ull);
    *--sp = 0;                                  // fake return address, alignment
    *--sp = (uint64_t) (void*) entry;           // ret target
    for (int i = 0; i < 6; i++) *--sp = 0;      // rbp rbx r12-r15
    --sp; ((uint32_t*) sp)[0] = 0x1f80; ((uint32_t*) sp)[1] = 0x037f;
    c->sp = sp;
    // fork edge
    c->vc = cur->vc; tickc(c); tickc(cur);
    cos().push_back(c);
    if (cos().size() == 1) rearm();
    return c;
}
static std::vector<Co*>& finished() { alignas(16) static char b[sizeof(std::vector<Co*>)]; static std::vector<Co*>* v; if (!v) v = new (b) std::vector<Co*>(); return *v; }
static void reap(Co* c) { cur->freeids.push_back(c->id); freestacks().push_back(c->stack); delete c; }
static void maybe_single() {
    if (cos().empty() && cur == &g_main) { clear_shadow(); g_main.vc.clear(); g_main.freeids.clear(); g_nextid = 1; countdown = INT64_MAX; }
}

// caller threads
static std::vector<Co*>& spawned() { alignas(16) static char b[sizeof(std::vector<Co*>)]; static std::vector<Co*>* v; if (!v) v = new (b) std::vector<Co*>(); return *v; }
static int g_spawned_left = 0; static Co* g_joiner = nullptr;
void spawn(std::function<void()> f, const char* name) { g_spawned_left++; spawned().push_back(make([f]() { f(); if (--g_spawned_left == 0 && g_joiner) g_joiner->blocked = false; }, name)); }
void join_all() {
    if (g_spawned_left > 0) { cur->blocked = true; g_joiner = cur; while (cur->blocked) reschedule(); g_joiner = nullptr; }
    for (Co* c : spawned()) while (!c->done) switch_to(c);
    for (Co* c : spawned()) { vcjoin(cur->vc, c->vc); reap(c); }
    spawned().clear();
    tickc(cur);
    maybe_single();
}
void configure_from_tape() {
    static const int nt[] = {1, 2, 3, 4, 8, 5, 7, 16};
    default_threads = nt[sim::weighted({4, 5, 4, 4, 3, 2, 2, 1})];
    nprocs = default_threads;
    policy = (int) sim::weighted({2, 3, 3});
#ifndef SIM_VARIANT_RACE
    if (policy == ACCESSES) policy = SYNC_POINTS;
#endif
    static const uint32_t bs[] = {1000, 200, 40, 8, 2};
    burst = bs[sim::draw(5)];
    dynamic_teams = sim::draw(6) == 5;
    sim::log("threads=%d policy=%d burst=%u dynamic=%d", default_threads, policy, burst, dynamic_teams);
}

// ---- teams -----------------------------------------------------------------
static Ws* ws_enter(void) {
    static Ws* lone = nullptr;
    if (!cur->team) { delete lone; lone = new Ws(); cur->cur_ws = lone; return lone; }
    Ws* w = &cur->team->ws[cur->ws_seq++];
    cur->cur_ws = w; cur->st_chunkno = 0;
    return w;
}
static void parallel(void (*fn)(void*), void* data, unsigned nt, std::function<void(Team*)> prep) {
    int want = nt ? (int) nt : (cur->nthreads_icv > 0 ? cur->nthreads_icv : default_threads);
    if (cur->team && cur->team->n > 1) want = 1;      // no nested parallelism by default
    if (want > 64) want = 64;
    if (want < 1) want = 1;
    if (dynamic_teams && want > 1) want = 1 + (int) sim::draw(want);
    Team t; t.n = want; t.fn = fn; t.data = data;
    teams++;
    t.parent_team = cur->team; t.parent_tnum = cur->tnum; t.parent_seq = cur->ws_seq; t.parent_ws = cur->cur_ws;
    if (prep) { t.ws[0]; prep(&t); }
    std::vector<Co*> ws;
    Team* tp = &t;
    Co* master = cur;
    for (int i = 1; i < want; i++) {
        Co* c = make([tp, fn, data]() { fn(data); tp->finished++; vcjoin(tp->joinvc, cur->vc); if (tp->finished == tp->n - 1 && tp->waiting) tp->waiting->blocked = false; }, "omp");
        c->team = tp; c->tnum = i;
        ws.push_back(c);
    }
    cur->team = tp; cur->tnum = 0; cur->ws_seq = 0;
    if (want > 1 && policy == RUN_TO_BLOCK) reschedule(); else if (want > 1) yield();
    fn(data);
    if (t.finished < want - 1) { t.waiting = cur; cur->blocked = true; while (cur->blocked) reschedule(); t.waiting = nullptr; }
    (void) master;
    for (Co* c : ws) { while (!c->done) { switch_to(c); } reap(c); }
    vcjoin(cur->vc, t.joinvc); tickc(cur);
    cur->team = t.parent_team; cur->tnum = t.parent_tnum; cur->ws_seq = t.parent_seq; cur->cur_ws = t.parent_ws;
    maybe_single();
}
static void barrier() {
    Team* t = cur->team;
    if (!t || t->n == 1) return;
    vcjoin(t->barvc, cur->vc);
    if (++t->arrived == t->n) {
        t->arrived = 0; t->gen++;
        VC v = t->barvc;
        auto rel = [&](Co* c) { if (c->team == t) { c->blocked = false; vcjoin(c->vc, v); tickc(c); } };
        for (Co* c : cos()) rel(c);
        rel(&g_main);
        if (cur == &g_main || std::find(cos().begin(), cos().end(), cur) == cos().end()) rel(cur);
        yield();
    } else {
        uint32_t g = t->gen;
        while (t->gen == g) block();
    }
}
// mutexes by key (critical sections, atomics, locks)
struct Mx { Co* owner = nullptr; int depth = 0; VC vc; };
static std::map<void*, Mx>& mxs() { alignas(16) static char b[sizeof(std::map<void*, Mx>)]; static std::map<void*, Mx>* m; if (!m) m = new (b) std::map<void*, Mx>(); return *m; }
static void mlock(void* k, bool nest = false) {
    Mx& m = mxs()[k];
    yield();
    if (m.owner == cur) { if (nest) { m.depth++; return; } std::string c = std::string("deadlock@") + sim::get_ctx(); sim::violate(c.c_str(), "self deadlock on a lock"); }
    while (m.owner) other();
    m.owner = cur; m.depth = 1;
    vcjoin(cur->vc, m.vc);
}
static void munlock(void* k) {
    Mx& m = mxs()[k];
    if (m.owner == cur && --m.depth > 0) return;
    m.vc = cur->vc; tickc(cur);
    m.owner = nullptr; released();
    yield();
}

// ---- race detection ----------------------------------------------------------
#ifdef SIM_VARIANT_RACE
struct Acc { uint16_t id; uint8_t mask; uint8_t wr; uint32_t clk; };
struct Cell { uintptr_t g; uint32_t gen; uint8_t n; Acc a[4]; };
enum { NCELL = 1 << 19 };
static Cell* cells = nullptr;
static uint32_t sgen = 1;
static uint32_t nused = 0;
static void clear_shadow() { sgen++; nused = 0; }
static Cell* cell(uintptr_t g, bool create) {
    if (!cells) cells = (Cell*) mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g - ((uintptr_t) g_arena >> 3) < ((uintptr_t) STACK * NSTACK >> 3)) g ^= (uintptr_t) g_epoch[(g - ((uintptr_t) g_arena >> 3)) / (STACK >> 3)] << 44;
    if (nused > NCELL / 4 * 3) clear_shadow();
    uint32_t i = (uint32_t) ((g * 0x9e3779b97f4a7c15ull) >> 40) & (NCELL - 1);
    for (int k = 0; k < 64; k++) {
        Cell& c = cells[(i + k) & (NCELL - 1)];
        if (c.gen == sgen && c.g == g) return &c;
        if (c.gen != sgen) { if (!create) return nullptr; c.gen = sgen; c.g = g; c.n = 0; nused++; return &c; }
    }
    return nullptr;
}
void mem_reused(const void* p, size_t n) {
    if (nlive() == 1 || !cells || nused == 0) return;
    uintptr_t a = (uintptr_t) p >> 3, b = ((uintptr_t) p + n + 7) >> 3;
    if (b - a > 4096) {
        for (uint32_t i = 0; i < NCELL; i++) if (cells[i].gen == sgen && cells[i].g >= a && cells[i].g < b) cells[i].n = 0;
    } else for (uintptr_t g = a; g < b; g++) { Cell* c = cell(g, false); if (c) c->n = 0; }
}
static void one(uintptr_t g, uint8_t mask, bool wr, const char* what, uintptr_t addr, void* pc) {
    Cell* c = cell(g, true);
    if (!c) return;
    uint32_t myclk = clk(cur);
    int slot = -1;
    for (int i = 0; i < c->n; i++) {
        Acc& a = c->a[i];
        if (a.id == cur->id) { if (a.mask == mask && a.wr == wr) { a.clk = myclk; slot = -2; } continue; }
        if (!(a.mask & mask) || !(a.wr || wr)) continue;
        uint32_t seen = (int) cur->vc.size() > a.id ? cur->vc[a.id] : 0;
        if (a.clk > seen) {
            Dl_info di; memset(&di, 0, sizeof di); uintptr_t off = 0; if (dladdr(pc, &di)) off = (uintptr_t) pc - (uintptr_t) di.dli_fbase;
            std::string cl = std::string("race@") + sim::get_ctx();
            sim::violate(cl.c_str(), "data race: thread %d %s and thread %d %s the same memory without synchronisation (%s, offset %#lx in the program)", cur->id, wr ? "writes" : "reads", a.id, a.wr ? "wrote" : "read", what, (unsigned long) off);
        }
    }
    if (slot == -2) return;
    Acc n; n.id = (uint16_t) cur->id; n.mask = mask; n.wr = wr; n.clk = myclk;
    if (c->n < 4) { c->a[c->n++] = n; return; }
    // prefer to replace an access ordered before this one
    for (int i = 0; i < 4; i++) { uint32_t seen = (int) cur->vc.size() > c->a[i].id ? cur->vc[c->a[i].id] : 0; if (c->a[i].clk <= seen && (wr || !c->a[i].wr)) { c->a[i] = n; return; } }
    c->a[(g + myclk) & 3] = n;
    (void) addr;
}
static inline void access(uintptr_t p, size_t n, bool wr, const char* what, void* pc) {
    if (nlive() == 1) return;
    accesses++;
    if (--countdown <= 0) { preemptions++; reschedule(); rearm(); }
    if (!races) return;
    if (g_tls && p >= (uintptr_t) g_tls && p < (uintptr_t) g_tls + g_tlssz) return;
    { uintptr_t tp = (uintptr_t) __builtin_thread_pointer(); if (p >= tp - 65536 && p < tp + 4096 && g_tlslo && p >= g_tlslo) return; }   // errno and other thread-local data
    uintptr_t end = p + n;
    while (p < end) {
        uintptr_t g = p >> 3; unsigned lo = p & 7, hi = (g == (end - 1) >> 3) ? ((end - 1) & 7) : 7;
        one(g, (uint8_t) (((1u << (hi - lo + 1)) - 1) << lo), wr, what, p, pc);
        p = (g + 1) << 3;
    }
}
void race_write(const void* p, size_t n, const char* what) { access((uintptr_t) p, n, true, what, __builtin_return_address(0)); }
void race_read(const void* p, size_t n, const char* what) { access((uintptr_t) p, n, false, what, __builtin_return_address(0)); }
#else
static void clear_shadow() {}
void mem_reused(const void*, size_t) {}
void race_write(const void*, size_t, const char*) {}
void race_read(const void*, size_t, const char*) {}
#endif

// ---- worksharing -----------------------------------------------------------
enum { ST = 0, DYN = 1, GUI = 2 };
static void ws_init(Ws* w, long lo, long hi, long step, long chunk, int kind) {
    if (w->init) return;
    w->init = true; w->lo = lo; w->hi = hi; w->step = step; w->chunk = chunk; w->kind = kind; w->next = lo; w->ordered_next = lo;
}
static long total(Ws* w) { return w->step > 0 ? (w->hi - w->lo + w->step - 1) / w->step : (w->lo - w->hi - w->step - 1) / -w->step; }
static bool ws_next(long* s, long* e) {
    Ws* w = (Ws*) cur->cur_ws;
    if (!w) return false;
    long tot = total(w);
    if (tot <= 0) return false;
    int nt = cur->team ? cur->team->n : 1, me = cur->team ? cur->tnum : 0;
    if (w->kind == ST) {
        long lo, hi;
        if (w->chunk <= 0) {
            if (cur->st_chunkno) return false;
            long q = tot / nt, r = tot % nt;
            lo = me * q + std::min<long>(me, r); hi = lo + q + (me < r);
            if (lo >= hi) return false;
        } else {
            long c = (long) cur->st_chunkno * nt + me;
            lo = c * w->chunk; hi = std::min(lo + w->chunk, tot);
            if (lo >= tot) return false;
        }
        cur->st_chunkno++;
        *s = w->lo + lo * w->step; *e = w->lo + hi * w->step;
        return true;
    }
    yield();
    long done = w->step > 0 ? (w->next - w->lo) / w->step : (w->lo - w->next) / -w->step;
    if (done >= tot) return false;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == GUI) c = std::max(c, (tot - done) / (2 * nt));
    long hi = std::min(done + c, tot);
    *s = w->lo + done * w->step; *e = w->lo + hi * w->step;
    w->next = *e;
    return true;
}
static int runkind() { return (int) 1; }
}  // namespace simthr
using namespace simthr;

extern "C" {
long __sysconf(int);
long sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return nprocs; return __sysconf(n); }
int omp_get_thread_num(void) { return cur->team ? cur->tnum : 0; }
int omp_get_num_threads(void) { return cur->team ? cur->team->n : 1; }
int omp_get_max_threads(void) { return cur->nthreads_icv > 0 ? cur->nthreads_icv : default_threads; }
void omp_set_num_threads(int n) { cur->nthreads_icv = n > 0 ? n : 1; }
int omp_get_num_procs(void) { return nprocs; }
int omp_in_parallel(void) { return cur->team && cur->team->n > 1; }
int omp_get_level(void) { int l = 0; for (Team* t = cur->team; t; t = t->parent_team) l++; return l; }
int omp_get_active_level(void) { return omp_in_parallel(); }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
int omp_get_thread_limit(void) { return 64; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void* l) { mxs().erase(l); }
void omp_destroy_lock(void* l) { mxs().erase(l); }
void omp_set_lock(void* l) { mlock(l); }
void omp_unset_lock(void* l) { munlock(l); }
int omp_test_lock(void* l) { if (mxs()[l].owner) return 0; mlock(l); return 1; }
void omp_init_nest_lock(void* l) { mxs().erase(l); }
void omp_destroy_nest_lock(void* l) { mxs().erase(l); }
void omp_set_nest_lock(void* l) { mlock(l, true); }
void omp_unset_nest_lock(void* l) { munlock(l); }

void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { parallel(fn, d, nt, nullptr); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
static int g_crit_key_, *g_crit_key_p = &g_crit_key_;
void GOMP_critical_start(void) { mlock(g_crit_key_p); }
void GOMP_critical_end(void) { munlock(g_crit_key_p); }
void GOMP_critical_name_start(void** p) { mlock(p); }
void GOMP_critical_name_end(void** p) { munlock(p); }
}
static int g_atomic_key;
extern "C" {
void GOMP_atomic_start(void) { mlock(&g_atomic_key); }
void GOMP_atomic_end(void) { munlock(&g_atomic_key); }
bool GOMP_single_start(void) { Ws* w = ws_enter(); yield(); if (w->single_taken) return false; w->single_taken = true; return true; }
void* GOMP_single_copy_start(void) { Ws* w = ws_enter(); yield(); if (!w->single_taken) { w->single_taken = true; return nullptr; } barrier(); return w->copy; }
void GOMP_single_copy_end(void* d) { Ws* w = (Ws*) cur->cur_ws; if (w) w->copy = d; barrier(); }

#define LOOP(name, KIND) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long c, long* is, long* ie) { Ws* w = ws_enter(); ws_init(w, s, e, inc, c, KIND); return ws_next(is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(is, ie); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long c, unsigned long long* is, unsigned long long* ie) { (void) up; Ws* w = ws_enter(); ws_init(w, (long) s, (long) e, (long) inc, (long) c, KIND); long a, b; if (!ws_next(&a, &b)) return false; *is = a; *ie = b; return true; } \
bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { long a, b; if (!ws_next(&a, &b)) return false; *is = a; *ie = b; return true; } \
bool GOMP_loop_ordered_##name##_start(long s, long e, long inc, long c, long* is, long* ie) { Ws* w = ws_enter(); ws_init(w, s, e, inc, c, KIND); return ws_next(is, ie); } \
bool GOMP_loop_ordered_##name##_next(long* is, long* ie) { return ws_next(is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long inc, long c, unsigned) { parallel(fn, d, nt, [=](Team* t) { ws_init(&t->ws[0], s, e, inc, c, KIND); }); }
LOOP(static, ST)
LOOP(dynamic, DYN)
LOOP(guided, GUI)
LOOP(nonmonotonic_dynamic, DYN)
LOOP(nonmonotonic_guided, GUI)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long* is, long* ie) { Ws* w = ws_enter(); ws_init(w, s, e, inc, 1, runkind()); return ws_next(is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long inc, unsigned) { parallel(fn, d, nt, [=](Team* t) { ws_init(&t->ws[0], s, e, inc, 1, runkind()); }); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
void GOMP_loop_end_nowait(void) {}
void GOMP_ordered_start(void) { sim::harness_error("ordered construct not modelled"); }
void GOMP_ordered_end(void) {}
unsigned GOMP_sections_start(unsigned n) { Ws* w = ws_enter(); if (!w->sections) { w->sections = (int) n; w->sec_next = 1; } yield(); return w->sec_next <= w->sections ? (unsigned) w->sec_next++ : 0; }
unsigned GOMP_sections_next(void) { Ws* w = (Ws*) cur->cur_ws; yield(); return w && w->sec_next <= w->sections ? (unsigned) w->sec_next++ : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned count, unsigned) { parallel(fn, d, nt, [=](Team* t) { t->ws[0].sections = (int) count; t->ws[0].sec_next = 1; }); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int) {
    if (cpy) { std::vector<char> b(sz + al); char* p = (char*) (((uintptr_t) b.data() + al - 1) & ~(uintptr_t) (al - 1)); cpy(p, data); fn(p); } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { yield(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
}

#ifdef SIM_VARIANT_RACE
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void* p) { access((uintptr_t) p, n, false, "data", PC); } \
void __tsan_write##n(void* p) { access((uintptr_t) p, n, true, "data", PC); } \
void __tsan_unaligned_read##n(void* p) { access((uintptr_t) p, n, false, "data", PC); } \
void __tsan_unaligned_write##n(void* p) { access((uintptr_t) p, n, true, "data", PC); } \
void __tsan_volatile_read##n(void* p) { access((uintptr_t) p, n, false, "data", PC); } \
void __tsan_volatile_write##n(void* p) { access((uintptr_t) p, n, true, "data", PC); } \
void __tsan_read##n##_pc(void* p, void* pc) { access((uintptr_t) p, n, false, "data", pc); } \
void __tsan_write##n##_pc(void* p, void* pc) { access((uintptr_t) p, n, true, "data", pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access((uintptr_t) p, n, false, "range", PC); }
void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t) p, n, true, "range", PC); }
void __tsan_vptr_update(void** p, void*) { access((uintptr_t) p, 8, true, "vptr", PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t) p, 8, false, "vptr", PC); }
// atomics: sequentially consistent, one synchronisation object per address
static void at_sync(volatile void* p) {
    if (nlive() == 1) return;
    if (--countdown <= 0) { preemptions++; reschedule(); rearm(); }
    Mx& m = mxs()[(void*) p];
    vcjoin(cur->vc, m.vc); m.vc = cur->vc; tickc(cur);
}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { at_sync((volatile void*) p); return *p; } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { at_sync(p); *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { at_sync(p); T o = *p; *p = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { at_sync(p); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { at_sync(p); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { at_sync(p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { at_sync(p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { at_sync(p); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { at_sync(p); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { at_sync(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { at_sync(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { at_sync(p); T o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics: another virtual thread waits
static std::map<void*, int>& guards() { alignas(16) static char b[sizeof(std::map<void*, int>)]; static std::map<void*, int>* m; if (!m) m = new (b) std::map<void*, int>(); return *m; }
int __cxa_guard_acquire(long long* g) {
    if (*(char*) g) { if (nlive() > 1) { Mx& m = mxs()[(void*) g]; vcjoin(cur->vc, m.vc); } return 0; }
    while (guards().count(g)) { other(); if (*(char*) g) { Mx& m = mxs()[(void*) g]; vcjoin(cur->vc, m.vc); return 0; } }
    if (*(char*) g) return 0;
    guards()[g] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) { *(char*) g = 1; guards().erase(g); released(); if (nlive() > 1) { Mx& m = mxs()[(void*) g]; vcjoin(m.vc, cur->vc); tickc(cur); } }
void __cxa_guard_abort(long long* g) { guards().erase(g); released(); }
}

extern "C" char _end;
// ---- locks and thread-specific data of the libraries, heap reuse, static buffers of libc ---------------------
namespace simthr {
struct Held { Co* owner; int depth; };
static std::map<void*, Held>& held() { alignas(16) static char b[sizeof(std::map<void*, Held>)]; static std::map<void*, Held>* m; if (!m) m = new (b) std::map<void*, Held>(); return *m; }
static std::map<std::pair<int, unsigned>, const void*>& specific() { typedef std::map<std::pair<int, unsigned>, const void*> M; alignas(16) static char b[sizeof(M)]; static M* m; if (!m) m = new (b) M(); return *m; }
static char* exe_lo; static char* exe_hi;
static bool from_exe(void* pc) {
    if (!exe_lo) { Dl_info d; memset(&d, 0, sizeof d); if (dladdr((void*) &from_exe, &d)) { exe_lo = (char*) d.dli_fbase; exe_hi = &_end; } }
    return (char*) pc >= exe_lo && (char*) pc < exe_hi;
}
template <class F> static F real_fn(F& f, const char* n) { if (!f) f = (F) dlsym(RTLD_NEXT, n); return f; }
static char cell_tok, cell_locale, cell_env;
}
extern "C" {
static int (*r_lock)(pthread_mutex_t*); static int (*r_try)(pthread_mutex_t*); static int (*r_unlock)(pthread_mutex_t*);
static void* (*r_get)(pthread_key_t); static int (*r_set)(pthread_key_t, const void*);
int pthread_mutex_lock(pthread_mutex_t* m) {
    real_fn(r_lock, "pthread_mutex_lock");
    if (nlive() == 1) return r_lock(m);
    while (true) {
        auto it = held().find(m);
        if (it == held().end()) { held()[m] = Held{cur, 1}; break; }
        if (it->second.owner == cur) { if ((m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) sim::violate("deadlock", "a thread locks a mutex it holds"); it->second.depth++; break; }
        other();
    }
    if (from_exe(__builtin_return_address(0))) { Mx& x = mxs()[m]; vcjoin(cur->vc, x.vc); }
    return r_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    real_fn(r_try, "pthread_mutex_trylock");
    if (nlive() == 1) return r_try(m);
    auto it = held().find(m);
    if (it != held().end() && it->second.owner != cur) return EBUSY;
    int r = r_try(m);
    if (r == 0) { if (it == held().end()) held()[m] = Held{cur, 1}; else it->second.depth++; if (from_exe(__builtin_return_address(0))) { Mx& x = mxs()[m]; vcjoin(cur->vc, x.vc); } }
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    real_fn(r_unlock, "pthread_mutex_unlock");
    auto it = held().find(m);
    if (it != held().end() && --it->second.depth <= 0) { held().erase(it); released(); }
    int r = r_unlock(m);
    if (nlive() > 1 && from_exe(__builtin_return_address(0))) { Mx& x = mxs()[m]; vcjoin(x.vc, cur->vc); tickc(cur); yield(); }
    return r;
}
int pthread_spin_lock(pthread_spinlock_t* l) noexcept { while (pthread_spin_trylock(l) != 0) { if (nlive() == 1) continue; other(); } return 0; }
static int (*r_rd)(pthread_rwlock_t*); static int (*r_wr)(pthread_rwlock_t*);
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (nlive() == 1) return real_fn(r_rd, "pthread_rwlock_rdlock")(l); int r; while ((r = pthread_rwlock_tryrdlock(l)) == EBUSY || r == EDEADLK) other(); return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (nlive() == 1) return real_fn(r_wr, "pthread_rwlock_wrlock")(l); int r; while ((r = pthread_rwlock_trywrlock(l)) == EBUSY || r == EDEADLK) other(); return r; }
static std::map<void*, int>& onces() { alignas(16) static char b[sizeof(std::map<void*, int>)]; static std::map<void*, int>* m; if (!m) m = new (b) std::map<void*, int>(); return *m; }
static int (*r_once)(pthread_once_t*, void (*)(void));
int pthread_once(pthread_once_t* o, void (*f)(void)) { while (nlive() > 1 && onces().count(o)) other(); if (nlive() > 1 && *o == PTHREAD_ONCE_INIT) onces()[o] = 1; int r = real_fn(r_once, "pthread_once")(o, f); onces().erase(o); released(); return r; }
int pthread_spin_unlock(pthread_spinlock_t* l) noexcept { static int (*f)(pthread_spinlock_t*); int r = real_fn(f, "pthread_spin_unlock")(l); released(); return r; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { static int (*f)(pthread_rwlock_t*); int r = real_fn(f, "pthread_rwlock_unlock")(l); released(); return r; }
void* pthread_getspecific(pthread_key_t k) {
    if (cur == &g_main) return real_fn(r_get, "pthread_getspecific")(k);
    auto it = specific().find({cur->id, k});
    return it == specific().end() ? nullptr : (void*) it->second;
}
int pthread_setspecific(pthread_key_t k, const void* v) {
    if (cur == &g_main) return real_fn(r_set, "pthread_setspecific")(k, v);
    specific()[{cur->id, k}] = v;
    return 0;
}
// a block that comes back from the heap carries no history
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && nlive() > 1) mem_reused(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && nlive() > 1) mem_reused(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p && p != q && nlive() > 1) mem_reused(p, n); return p; }
void free(void* p) { __libc_free(p); }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && nlive() > 1) mem_reused(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }

struct tm* localtime(const time_t* t) noexcept { static struct tm* (*f)(const time_t*); struct tm* r = real_fn(f, "localtime")(t); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) r, sizeof *r, true, "localtime", __builtin_return_address(0)); return r; }
struct tm* gmtime(const time_t* t) noexcept { static struct tm* (*f)(const time_t*); struct tm* r = real_fn(f, "gmtime")(t); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) r, sizeof *r, true, "gmtime", __builtin_return_address(0)); return r; }
char* asctime(const struct tm* t) noexcept { static char* (*f)(const struct tm*); char* r = real_fn(f, "asctime")(t); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) r, 26, true, "asctime", __builtin_return_address(0)); return r; }
char* ctime(const time_t* t) noexcept { static char* (*f)(const time_t*); char* r = real_fn(f, "ctime")(t); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) r, 26, true, "ctime", __builtin_return_address(0)); return r; }
char* strtok(char* a, const char* b) noexcept { static char* (*f)(char*, const char*); real_fn(f, "strtok"); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) &cell_tok, 1, true, "strtok", __builtin_return_address(0)); return f(a, b); }
int rand(void) noexcept { static int (*f)(void); real_fn(f, "rand"); return f(); }
char* setlocale(int c, const char* l) noexcept { static char* (*f)(int, const char*); real_fn(f, "setlocale"); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) &cell_locale, 1, l != nullptr, "setlocale", __builtin_return_address(0)); return f(c, l); }
char* getenv(const char* n) noexcept { static char* (*f)(const char*); real_fn(f, "getenv"); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) &cell_env, 1, false, "getenv", __builtin_return_address(0)); return f(n); }
int setenv(const char* n, const char* v, int o) noexcept { static int (*f)(const char*, const char*, int); real_fn(f, "setenv"); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) &cell_env, 1, true, "setenv", __builtin_return_address(0)); return f(n, v, o); }
int putenv(char* n) noexcept { static int (*f)(char*); real_fn(f, "putenv"); if (nlive() > 1 && from_exe(__builtin_return_address(0))) access((uintptr_t) &cell_env, 1, true, "putenv", __builtin_return_address(0)); return f(n); }
}
#endif
