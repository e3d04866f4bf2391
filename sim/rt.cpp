// Runner: executes runs in forked children, minimises and replays tapes.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <ctime>
#include <unistd.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
#endif

namespace sim {

enum { MAXTAPE = 1 << 16, MAXTRACE = 1 << 18, MAXCNT = 192 };
struct Counter { char name[56]; uint64_t n; uint32_t kind; };
struct Shared {
    volatile int status;       // 0 not finished, 1 ok, 2 violation, 3 harness error
    char cls[160];
    char msg[1800];
    char ctx[96];
    uint64_t hash;
    uint64_t steps, simns;
    uint32_t tapelen;
    uint32_t ncnt;
    int nontrivial;
    uint32_t tape[MAXTAPE];
    Counter cnt[MAXCNT];
    uint32_t tracelen;
    char trace[MAXTRACE];
};
static Shared* S = nullptr;
static bool g_replay = false, g_verbose = false;
static uint64_t g_rng[4];
static const uint32_t* g_in = nullptr;
static uint32_t g_inlen = 0;
static uint64_t g_steplimit = 2000000;
static uint8_t g_fill = 0xA5;
static int g_errfd = 2;

uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rngnext() {
    uint64_t* s = g_rng;
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
static void seedrng(uint64_t seed, uint64_t idx) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ fnv(kPropertyId, strlen(kPropertyId)) ^ (idx * 0xd1342543de82ef95ull + 1);
    for (int i = 0; i < 4; i++) g_rng[i] = splitmix(x);
}

uint32_t draw(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    uint32_t pos = S->tapelen;
    if (pos >= MAXTAPE) return 0;
    if (g_replay) v = pos < g_inlen ? g_in[pos] % n : 0;
    else v = (uint32_t) ((rngnext() >> 11) % n);
    S->tape[pos] = v;
    S->tapelen = pos + 1;
    return v;
}
uint32_t weighted(std::initializer_list<uint32_t> w) {
    uint32_t tot = 0;
    for (uint32_t x : w) tot += x;
    uint32_t d = draw(tot), i = 0;
    for (uint32_t x : w) { if (d < x) return i; d -= x; i++; }
    return 0;
}
uint32_t skewed(uint32_t n) {
    if (n <= 1) return 0;
    switch (draw(4)) {
        case 0: return draw(n < 3 ? n : 3);
        case 1: return draw(n < 8 ? n : 8);
        case 2: return draw(n < 32 ? n : 32);
        default: return draw(n);
    }
}

static void tracen(const char* b, size_t n) {
    if (S->tracelen + n + 1 < MAXTRACE) {
        memcpy(S->trace + S->tracelen, b, n);
        S->tracelen += n;
        S->trace[S->tracelen++] = '\n';
    }
}
void log(const char* fmt, ...) {
    char b[600];
    int e = errno;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int) sizeof b) n = sizeof b - 1;
    S->hash = fnv(b, n, S->hash);
    if (g_verbose) tracen(b, n);
    errno = e;
}
void ctx(const char* l) { snprintf(S->ctx, sizeof S->ctx, "%s", l); }
const char* get_ctx() { return S->ctx; }
bool verbose() { return g_verbose; }
uint8_t fill_byte() { return g_fill; }
uint64_t loghash() { return S->hash; }
static void count(const char* name, uint32_t kind) {
    for (uint32_t i = 0; i < S->ncnt; i++)
        if (S->cnt[i].kind == kind && !strcmp(S->cnt[i].name, name)) { S->cnt[i].n++; return; }
    if (S->ncnt < MAXCNT) {
        Counter& c = S->cnt[S->ncnt];
        snprintf(c.name, sizeof c.name, "%s", name);
        c.n = 1; c.kind = kind;
        S->ncnt++;
    }
}
void fault_fired(const char* k) { count(k, 0); S->nontrivial = 1; }
void probe(const char* k) { count(k, 1); }
void mark_nontrivial() { S->nontrivial = 1; }
void set_step_limit(uint64_t n) { g_steplimit = S->steps + n; }
void add_simtime(uint64_t ns) { S->simns += ns; }
static void finish(int st, const char* cls, const char* msg) {
    if (S->status == 0) {
        snprintf(S->cls, sizeof S->cls, "%s", cls);
        snprintf(S->msg, sizeof S->msg, "%s", msg);
        S->hash = fnv(cls, strlen(cls), S->hash);
        S->status = st;
    }
    syscall(SYS_exit_group, 0);
}
void step(uint64_t n) {
    S->steps += n;
    if (S->steps > g_steplimit) {
        char c[160];
        snprintf(c, sizeof c, "hang@%s", S->ctx);
        finish(2, c, "simulated event budget exhausted: the operation does not terminate");
    }
}
void give_up(const char* why) { probe(why); log("run given up: %s", why); finish(1, "", ""); __builtin_unreachable(); }
void violate(const char* cls, const char* fmt, ...) {
    char b[1700];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    finish(2, cls, b);
    __builtin_unreachable();
}
void harness_error(const char* fmt, ...) {
    char b[1700];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    finish(3, "harness-error", b);
    __builtin_unreachable();
}

static void on_signal(int sig) {
    char c[160], m[200];
    const char* nm = sig == SIGPROF ? "hang" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "fpe" : "segv";
    snprintf(c, sizeof c, "%s@%s", nm, S->ctx);
    snprintf(m, sizeof m, "signal %d (%s) while in %s", sig, sig == SIGPROF ? "CPU time budget exhausted" : nm, S->ctx);
    finish(2, c, m);
}
#ifdef SIM_ASAN
static void on_asan(const char* rep) {
    const char* p = strstr(rep, "AddressSanitizer: ");
    char kind[60] = "unknown";
    if (p) {
        p += strlen("AddressSanitizer: ");
        if (!strncmp(p, "attempting ", 11)) p += 11;
        size_t i = 0;
        while (p[i] && p[i] != ' ' && p[i] != '\n' && i < sizeof kind - 1) { kind[i] = p[i]; i++; }
        kind[i] = 0;
    }
    char c[160];
    snprintf(c, sizeof c, "memory:%s@%s", kind, S->ctx);
    finish(2, c, rep);
}
#endif
static void on_terminate() {
    char c[160], m[400] = "uncaught exception";
    snprintf(c, sizeof c, "terminate@%s", S->ctx);
    std::type_info* t = abi::__cxa_current_exception_type();
    if (t) {
        try { throw; } catch (const std::exception& e) { snprintf(m, sizeof m, "uncaught %s: %s", t->name(), e.what()); } catch (...) {}
    }
    finish(2, c, m);
}

// one child run; `tape` null -> generate from (seed, idx)
static int g_cpu_s = 4;
static void run_child(Shared* sh, uint64_t seed, uint64_t idx, const uint32_t* tape, uint32_t len, bool verb, uint8_t fill) {
    S = sh;
    g_fill = fill;
    g_replay = tape != nullptr; g_in = tape; g_inlen = len; g_verbose = verb;
    seedrng(seed, idx);
    g_steplimit = 2000000;
    signal(SIGPROF, on_signal);
    signal(SIGABRT, on_signal);
#ifndef SIM_ASAN
    {
        static char alt[1 << 16];
        stack_t ss; memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt; ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    }
#else
    signal(SIGFPE, on_signal);
    __asan_set_error_report_callback(on_asan);
#endif
    std::set_terminate(on_terminate);
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = g_cpu_s;
    setitimer(ITIMER_PROF, &it, nullptr);
    prop_run();
    finish(1, "", "");
}
static void wipe(Shared* sh) {
    sh->status = 0; sh->cls[0] = sh->msg[0] = sh->ctx[0] = 0; sh->hash = 1469598103934665603ull;
    sh->steps = sh->simns = 0; sh->tapelen = sh->ncnt = sh->tracelen = 0; sh->nontrivial = 0;
}
static void exec_run(Shared* sh, uint64_t seed, uint64_t idx, const uint32_t* tape, uint32_t len, bool verb, uint8_t fill = 0xA5) {
    wipe(sh);
    pid_t p = fork();
    if (p < 0) { sh->status = 3; snprintf(sh->msg, sizeof sh->msg, "fork failed"); return; }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        run_child(sh, seed, idx, tape, len, verb, fill);
        _exit(0);
    }
    int st = 0;
    // bounded wait: a child blocked without using CPU is killed after 120 s
    struct timespec ts = {0, 200000};
    double waited = 0;
    bool killed = false;
    sigset_t set; sigemptyset(&set); sigaddset(&set, SIGCHLD);
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (r < 0 && errno != EINTR) break;
        ts.tv_sec = 1; ts.tv_nsec = 0;
        int sg = sigtimedwait(&set, nullptr, &ts);
        if (sg < 0 && errno == EAGAIN) waited += 1;
        if (waited > 120 && !killed) { kill(p, SIGKILL); killed = true; }
    }
    if (sh->status == 0) {
        if (killed) {
            sh->status = 2;
            snprintf(sh->cls, sizeof sh->cls, "blocked@%s", sh->ctx);
            snprintf(sh->msg, sizeof sh->msg, "the run blocked for 120 s of real time");
        } else if (WIFSIGNALED(st)) {
            sh->status = 2;
            snprintf(sh->cls, sizeof sh->cls, "killed-by-signal-%d@%s", WTERMSIG(st), sh->ctx);
            snprintf(sh->msg, sizeof sh->msg, "child killed by signal %d", WTERMSIG(st));
        } else {
            sh->status = 2;
            snprintf(sh->cls, sizeof sh->cls, "exit@%s", sh->ctx);
            snprintf(sh->msg, sizeof sh->msg, "process exited (code %d) inside the library", WEXITSTATUS(st));
        }
    }
}

// ---- batch -----------------------------------------------------------------
struct Agg {
    uint64_t runs, nontrivial, steps, simns, distinct, viol, herr;
    uint32_t ncnt;
    Counter cnt[MAXCNT * 2];
    uint32_t hset_n;
    uint64_t hset[1 << 20];
};
static bool hset_add(Agg* a, uint64_t h) {
    const uint32_t M = (1 << 20) - 1;
    if (h == 0) h = 1;
    if (a->hset_n > (M * 3) / 4) return false;
    uint32_t i = (uint32_t) (h ^ (h >> 32)) & M;
    while (a->hset[i]) { if (a->hset[i] == h) return false; i = (i + 1) & M; }
    a->hset[i] = h; a->hset_n++;
    return true;
}
template <class T> static T* shm(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (T*) p;
}
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r;
}
static std::vector<std::string> g_known;
static bool is_known(const char* cls) {
    for (auto& k : g_known) if (k == cls) return true;
    return false;
}
static void write_case(const char* path, Shared* s, uint64_t seed, uint64_t idx, bool trace) {
    int fd = (int) syscall(SYS_open, path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) return;
    std::string o = "{\"property\":\"" + std::string(kPropertyId) + "\",\"seed\":" + std::to_string(seed) + ",\"run\":" + std::to_string(idx) +
        ",\"status\":" + std::to_string(s->status) + ",\"class\":\"" + jesc(s->cls) + "\",\"hash\":\"" + std::to_string(s->hash) + "\",\"message\":\"" + jesc(s->msg) + "\",\n\"tape\":[";
    uint32_t n = s->tapelen;
    while (n > 0 && s->tape[n - 1] == 0) n--;
    for (uint32_t i = 0; i < n; i++) { if (i) o += ","; o += std::to_string(s->tape[i]); }
    o += "]";
    if (trace) {
        o += ",\n\"trace\":[";
        size_t b = 0; bool first = true;
        for (size_t i = 0; i < s->tracelen; i++) if (s->trace[i] == '\n') {
            o += first ? "\n\"" : ",\n\""; first = false;
            o += jesc(std::string(s->trace + b, i - b)) + "\"";
            b = i + 1;
        }
        o += "]";
    }
    o += "}\n";
    size_t off = 0;
    while (off < o.size()) { ssize_t w = syscall(SYS_write, fd, o.data() + off, o.size() - off); if (w <= 0) break; off += w; }
    syscall(SYS_close, fd);
}
static bool read_tape(const char* path, std::vector<uint32_t>& t, std::string* cls, std::string* hash) {
    int fd = (int) syscall(SYS_open, path, O_RDONLY, 0);
    if (fd < 0) return false;
    std::string s; char b[65536]; ssize_t r;
    while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, r);
    syscall(SYS_close, fd);
    auto field = [&](const char* k) {
        size_t p = s.find(std::string("\"") + k + "\":"); if (p == std::string::npos) return std::string();
        p += strlen(k) + 3; while (p < s.size() && s[p] != '"') p++;
        p++; size_t e = s.find('"', p); return s.substr(p, e - p);
    };
    if (cls) *cls = field("class");
    if (hash) *hash = field("hash");
    size_t p = s.find("\"tape\":");
    if (p == std::string::npos) return false;
    const char* c = s.c_str() + p + 7;
    while (*c && *c != '[') c++;
    if (*c) c++;
    while (isspace((unsigned char) *c)) c++;
    while (*c && *c != ']') { char* e; unsigned long v = strtoul(c, &e, 10); if (e == c) break; t.push_back((uint32_t) v); c = e; while (*c == ',' || *c == ' ' || *c == '\n') c++; }
    return true;
}

static int do_batch(uint64_t seed, int workers, double seconds, uint64_t maxruns, const char* outdir) {
    Agg* ag = shm<Agg>(workers);
    Shared* shs = shm<Shared>(workers);
    volatile int* stop = shm<int>();
    double t0 = now();
    std::vector<pid_t> ps;
    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Agg* a = ag + w; Shared* s = shs + w;
            for (uint64_t idx = w; idx < maxruns; idx += workers) {
                if (*stop || now() - t0 > seconds) break;
                exec_run(s, seed, idx, nullptr, 0, false);
                a->runs++; a->steps += s->steps; a->simns += s->simns;
                if (s->nontrivial) { a->nontrivial++; if (hset_add(a, s->hash)) a->distinct++; }
                for (uint32_t i = 0; i < s->ncnt; i++) {
                    uint32_t j = 0;
                    for (; j < a->ncnt; j++) if (a->cnt[j].kind == s->cnt[i].kind && !strcmp(a->cnt[j].name, s->cnt[i].name)) break;
                    if (j == a->ncnt) { if (a->ncnt >= MAXCNT * 2) continue; a->cnt[j] = s->cnt[i]; a->ncnt++; }
                    else a->cnt[j].n += s->cnt[i].n;
                }
                if (s->status == 2 && is_known(s->cls)) {
                    uint32_t j = 0;
                    for (; j < a->ncnt; j++) if (a->cnt[j].kind == 2 && !strcmp(a->cnt[j].name, s->cls)) break;
                    if (j == a->ncnt && a->ncnt < MAXCNT * 2) { memset(&a->cnt[j], 0, sizeof a->cnt[j]); snprintf(a->cnt[j].name, 56, "%s", s->cls); a->cnt[j].kind = 2; a->ncnt++; }
                    if (j < a->ncnt) a->cnt[j].n++;
                } else if (s->status == 2 || s->status == 3) {
                    if (s->status == 2) a->viol++; else a->herr++;
                    char path[512];
                    snprintf(path, sizeof path, "%s/%s-%llu.case", outdir, s->status == 2 ? "viol" : "herr", (unsigned long long) idx);
                    write_case(path, s, seed, idx, false);
                    if (!getenv("SIM_KEEP_GOING")) { *stop = 1; break; }
                    if (a->viol > 40) break;
                }
            }
            syscall(SYS_exit_group, 0);
        }
        ps.push_back(p);
    }
    for (pid_t p : ps) waitpid(p, nullptr, 0);
    double wall = now() - t0;
    // merge
    std::map<std::pair<uint32_t, std::string>, uint64_t> c;
    std::set<uint64_t> dist;
    uint64_t runs = 0, nt = 0, steps = 0, simns = 0, viol = 0, herr = 0;
    for (int w = 0; w < workers; w++) {
        Agg* a = ag + w;
        runs += a->runs; nt += a->nontrivial; steps += a->steps; simns += a->simns; viol += a->viol; herr += a->herr;
        for (uint32_t i = 0; i < a->ncnt; i++) c[{a->cnt[i].kind, a->cnt[i].name}] += a->cnt[i].n;
        for (uint32_t i = 0; i < (1u << 20); i++) if (a->hset[i]) dist.insert(a->hset[i]);
    }
    // a few sample runs, written out
    Shared* s = shm<Shared>();
    std::string samples = "[";
    int got = 0;
    for (uint64_t idx = 0; idx < 60 && got < 3; idx++) {
        exec_run(s, seed, idx, nullptr, 0, true);
        if (!s->nontrivial) continue;
        if (got++) samples += ",";
        std::string t(s->trace, s->tracelen < 1500 ? s->tracelen : 1500);
        samples += "{\"run\":" + std::to_string(idx) + ",\"log_hash\":\"" + std::to_string(s->hash) + "\",\"draws\":" + std::to_string(s->tapelen) + ",\"log\":\"" + jesc(t) + "\"}";
    }
    samples += "]";
    // determinism: re-run a sample, hashes must match (also with another worker process layout)
    uint64_t detn = 0, detbad = 0;
    Shared* s2 = shm<Shared>();
    for (uint64_t idx = 0; idx < 40 && idx < runs; idx++) {
        exec_run(s, seed, idx, nullptr, 0, false);
        std::vector<uint32_t> t(s->tape, s->tape + s->tapelen);
        exec_run(s2, seed, idx, t.data(), (uint32_t) t.size(), true);
        detn++;
        if (s->hash != s2->hash || s->status != s2->status) detbad++;
    }
    std::string o = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nt) + ",\"distinct\":" + std::to_string(dist.size()) +
        ",\"steps\":" + std::to_string(steps) + ",\"simns\":" + std::to_string(simns) + ",\"violations\":" + std::to_string(viol) + ",\"harness_errors\":" + std::to_string(herr) +
        ",\"wall\":" + std::to_string(wall) + ",\"det_checked\":" + std::to_string(detn) + ",\"det_mismatch\":" + std::to_string(detbad) +
        ",\"rule\":\"" + jesc(kRule) + "\",\"real\":\"" + jesc(kRealComponents) + "\",\"stub\":\"" + jesc(kStubComponents) + "\"";
    const char* nm[3] = {"faults", "probes", "known"};
    for (uint32_t k = 0; k < 3; k++) {
        o += std::string(",\"") + nm[k] + "\":{";
        bool f = true;
        for (auto& e : c) if (e.first.first == k) { if (!f) o += ","; f = false; o += "\"" + jesc(e.first.second) + "\":" + std::to_string(e.second); }
        o += "}";
    }
    o += ",\"samples\":" + samples + "}\n";
    std::string path = std::string(outdir) + "/batch.json";
    int fd = (int) syscall(SYS_open, path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { size_t off = 0; while (off < o.size()) { ssize_t w = syscall(SYS_write, fd, o.data() + off, o.size() - off); if (w <= 0) break; off += w; } syscall(SYS_close, fd); }
    return 0;
}

// ---- minimiser -------------------------------------------------------------
static int do_min(const char* in, const char* out, double seconds) {
    std::vector<uint32_t> cur; std::string cls;
    if (!read_tape(in, cur, &cls, nullptr)) return 2;
    const int W = 8;
    Shared* sh = shm<Shared>(W);
    Shared* s = sh;
    double t0 = now();
    uint64_t tries = 0;
    auto test = [&](const std::vector<uint32_t>& t) -> bool {
        tries++;
        exec_run(s, 0, 0, t.data(), (uint32_t) t.size(), false);
        return s->status == 2 && cls == s->cls;
    };
    if (!test(cur)) { fprintf(stderr, "minimise: tape does not reproduce class %s (got %d %s)\n", cls.c_str(), s->status, s->cls); return 3; }
    cur.assign(s->tape, s->tape + std::min<size_t>(s->tapelen, cur.size() ? std::max<size_t>(cur.size(), 1) : 0));
    auto trim = [&]() { while (!cur.empty() && cur.back() == 0) cur.pop_back(); };
    trim();
    bool progress = true;
    while (progress && now() - t0 < seconds) {
        progress = false;
        for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1 && now() - t0 < seconds; k /= 2) {
            for (size_t i = 0; i < cur.size() && now() - t0 < seconds;) {   // delete chunks
                std::vector<uint32_t> t(cur.begin(), cur.begin() + i);
                t.insert(t.end(), cur.begin() + std::min(cur.size(), i + k), cur.end());
                if (t.size() < cur.size() && test(t)) { cur = t; progress = true; } else i += k;
            }
            for (size_t i = 0; i < cur.size() && now() - t0 < seconds; i += k) {  // zero chunks
                std::vector<uint32_t> t = cur; bool ch = false;
                for (size_t j = i; j < i + k && j < t.size(); j++) { if (t[j]) ch = true; t[j] = 0; }
                if (ch && test(t)) { cur = t; progress = true; }
            }
            trim();
        }
        for (size_t i = 0; i < cur.size() && now() - t0 < seconds; i++) {         // shrink values
            uint32_t lo = 0;
            while (cur[i] > lo && now() - t0 < seconds) {
                uint32_t mid = lo + (cur[i] - lo) / 2;
                std::vector<uint32_t> t = cur; t[i] = mid;
                if (test(t)) { cur = t; progress = true; } else lo = mid + 1;
            }
        }
        trim();
    }
    exec_run(s, 0, 0, cur.data(), (uint32_t) cur.size(), true);
    write_case(out, s, 0, 0, true);
    fprintf(stderr, "minimised to %zu choices in %llu executions\n", cur.size(), (unsigned long long) tries);
    return 0;
}
static int do_one(const char* in, const char* out) {
    std::vector<uint32_t> t;
    if (!read_tape(in, t, nullptr, nullptr)) return 2;
    Shared* s = shm<Shared>();
    exec_run(s, 0, 0, t.data(), (uint32_t) t.size(), true);
    if (out) write_case(out, s, 0, 0, true);
    printf("status=%d class=%s hash=%llu\n%s\n", s->status, s->cls, (unsigned long long) s->hash, s->msg);
    return 0;
}
// hashes of runs [0,n) -- used by the determinism self-check
static int do_hashes(uint64_t seed, uint64_t n) {
    Shared* s = shm<Shared>();
    for (uint64_t i = 0; i < n; i++) {
        exec_run(s, seed, i, nullptr, 0, false);
        printf("%llu %d %s %llu\n", (unsigned long long) i, s->status, s->cls, (unsigned long long) s->hash);
    }
    return 0;
}
static int do_show(uint64_t seed, uint64_t idx) {
    Shared* s = shm<Shared>();
    exec_run(s, seed, idx, nullptr, 0, true);
    fwrite(s->trace, 1, s->tracelen, stdout);
    printf("status=%d class=%s hash=%llu tape=%u\n%s\n", s->status, s->cls, (unsigned long long) s->hash, s->tapelen, s->msg);
    for (uint32_t i = 0; i < s->ncnt; i++) printf("%s %s %llu\n", s->cnt[i].kind ? "probe" : "fault", s->cnt[i].name, (unsigned long long) s->cnt[i].n);
    return 0;
}

int main_(int argc, char** argv) {
    std::string cmd = argc > 1 ? argv[1] : "";
    sigset_t set; sigemptyset(&set); sigaddset(&set, SIGCHLD);
    sigprocmask(SIG_BLOCK, &set, nullptr);
    S = shm<Shared>();
    if (getenv("SIM_CPU_S")) g_cpu_s = atoi(getenv("SIM_CPU_S"));
    if (!getenv("SIM_STDOUT") && (cmd == "batch" || cmd == "min")) {
        int nul = (int) syscall(SYS_open, "/dev/null", O_WRONLY, 0);
        dup2(nul, 1);
        if (cmd == "batch") dup2(nul, 2);
    }
    mallopt(M_PERTURB, 0xA5);
    prop_init();
    if (cmd == "batch" && argc >= 8) {  // batch seed workers seconds maxruns outdir knownfile
        int fd = (int) syscall(SYS_open, argv[7], O_RDONLY, 0);
        if (fd >= 0) {
            std::string s; char b[4096]; ssize_t r;
            while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, r);
            syscall(SYS_close, fd);
            size_t p = 0;
            while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); if (e > p) g_known.push_back(s.substr(p, e - p)); p = e + 1; }
        }
        return do_batch(strtoull(argv[2], 0, 10), atoi(argv[3]), atof(argv[4]), strtoull(argv[5], 0, 10), argv[6]);
    }
    if (cmd == "min" && argc >= 5) return do_min(argv[2], argv[3], atof(argv[4]));
    if (cmd == "one" && argc >= 3) return do_one(argv[2], argc > 3 ? argv[3] : nullptr);
    if (cmd == "hashes" && argc >= 4) return do_hashes(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10));
    if (cmd == "show" && argc >= 4) return do_show(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10));
    fprintf(stderr, "usage: batch|min|one|hashes|show\n");
    return 2;
}
}  // namespace sim

#ifdef SIM_ASAN
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:"
           "malloc_fill_byte=165:max_malloc_fill_size=1073741824:symbolize=0:handle_abort=0:handle_sigfpe=0:"
           "detect_stack_use_after_return=0:quarantine_size_mb=64:print_legend=0:print_full_thread_history=0:allow_user_segv_handler=1";
}
#endif

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR_DONE")) {   // same addresses in every process
        setenv("SIM_NOASLR_DONE", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    return sim::main_(argc, argv);
}
