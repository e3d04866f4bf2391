#include "props/common.h"
#include "utils_array.h"
#include <memory>
using namespace ccgl; using namespace ccgl::utils_array;
const char* const kPropertyId = "C21";
const char* const kRule = "One run = a history of 2-14 operations on up to 6 live arrays of mixed element types: create with a value, copy from another array (converting), create from a ragged list, release, release again, release in batch; sizes from impossible to a few thousand; any allocation of any operation fails (once or from then on, nothrow and throwing). Worker threads fill the arrays under the tape. Non-trivial: an allocation failed.";
const char* const kRealComponents = "CCGL utils_array, the C++ allocator below the wrapped new[]/delete[]";
const char* const kStubComponents = "new[]/delete[] (failing on demand, outstanding blocks counted), OpenMP runtime (scheduler under the tape)";
void prop_init() {}

struct Held {
    std::function<void()> release;           // through CCGL
    std::function<string()> check;           // still holds what it was given?
    std::function<bool()> gone;
    int blocks = 0;
    vector<double> vals; int rows = 0, cols = 0; bool jag = false; vector<int> len;
    std::function<double(int, int)> at;
    std::function<bool(Held*)> copy1, copy2;
};
static int64_t g_base;
static int64_t outstanding(const vector<std::unique_ptr<Held>>& h) { int64_t n = 0; for (auto& x : h) n += x->blocks; return n; }
static void arm() {
    simalloc::fail_nth = -1; simalloc::fail_sticky = false;
    if (sim::flip(1, 2)) { simalloc::fail_nth = sim::draw(3); simalloc::fail_sticky = sim::flip(1, 3); simalloc::fail_throwing = sim::flip(1, 3); }
}
static void disarm() { simalloc::fail_nth = -1; simalloc::fail_throwing = false; }
template <class T> double cv(double v) { return (double) (T) v; }

template <class T> void hold1(Held* h, T* p, int n) {
    h->rows = n; h->cols = 0; h->blocks = 1;
    auto q = std::make_shared<T*>(p);
    h->at = [q](int i, int) { return (double) (*q)[i]; };
    h->release = [q]() { Release1DArray(*q); };
    h->gone = [q]() { return *q == nullptr; };
}
template <class T> void hold2(Held* h, T** p, int r, int c) {
    h->rows = r; h->cols = c; h->blocks = 2;
    auto q = std::make_shared<T**>(p);
    h->at = [q](int i, int j) { return (double) (*q)[i][j]; };
    h->release = [q]() { Release2DArray(*q); };
    h->gone = [q]() { return *q == nullptr; };
}
static string verify(Held* h) {
    char b[128];
    if (h->jag) { size_t k = 0; for (int i = 0; i < h->rows; i++) for (int j = 0; j <= h->len[i]; j++, k++) if (h->at(i, j) != h->vals[k]) { snprintf(b, sizeof b, "row %d element %d is %g, not %g", i, j, h->at(i, j), h->vals[k]); return b; } return ""; }
    for (int i = 0; i < h->rows; i++) for (int j = 0; j < (h->cols ? h->cols : 1); j++) { double w = h->vals[(size_t) i * (h->cols ? h->cols : 1) + j]; if (h->at(i, j) != w) { snprintf(b, sizeof b, "element %d,%d is %g, not %g", i, j, h->at(i, j), w); return b; } }
    return "";
}
static int size_of() { switch (sim::weighted({10, 3, 1, 1})) { case 0: return sim::range(1, 9); case 1: return sim::range(10, 700); case 2: return 0; default: return -sim::range(1, 3); } }

template <class T, class S> bool op(vector<std::unique_ptr<Held>>& held, int kind) {
    auto h = std::unique_ptr<Held>(new Held);
    int r = size_of(), c = kind == 0 || kind == 1 ? 1 : std::min(size_of(), 60); if (kind >= 2 && r > 200) r = 200;
    double v = sim::draw(120);
    bool ok = false, expect = true; T* p1 = nullptr; T** p2 = nullptr; bool null_src = false;
    uint64_t f0 = simalloc::failed; int64_t l0 = simalloc::live_arrays();
    S* s1 = nullptr; S** s2 = nullptr; vector<double> src;
    simalloc::counting = false;
    if (kind == 1) { if (r < 0) r = 1; null_src = sim::flip(1, 12); s1 = new S[(size_t) r + 1]; for (int i = 0; i < r; i++) { s1[i] = (S) sim::draw(120); src.push_back((double) s1[i]); } }
    if (kind == 3 && r > 0 && c > 0) { null_src = sim::flip(1, 12); s2 = new S*[r]; for (int i = 0; i < r; i++) { s2[i] = new S[c]; for (int j = 0; j < c; j++) { s2[i][j] = (S) sim::draw(120); src.push_back((double) s2[i][j]); } } }
    vector<S> jag; if (kind == 4) { if (r < 0) r = 0; r = std::min(r, 20); jag.push_back((S) r); for (int i = 0; i < r; i++) { int n = sim::range(0, 5); h->len.push_back(n); jag.push_back((S) n); for (int j = 0; j < n; j++) jag.push_back((S) sim::draw(120)); } for (size_t i = 1; i < jag.size(); i++) src.push_back((double) jag[i]); }
    simalloc::counting = true;
    // an array that exists is never overwritten
    T keep1[1] = {(T) 7}; T* keep2[1] = {keep1}; bool taken = kind != 4 && sim::flip(1, 10);
    if (taken) { p1 = keep1; p2 = keep2; }
    int jr = -5, jc = -5;
    arm();
    guarded("initialize", [&]() {
        switch (kind) {
            case 0: ok = Initialize1DArray(r, p1, (S) v); break;
            case 1: ok = Initialize1DArray(r, p1, null_src ? (S*) nullptr : s1); break;
            case 2: ok = Initialize2DArray(r, c, p2, (S) v); break;
            case 3: ok = Initialize2DArray(r, c, p2, null_src || !s2 ? (S**) nullptr : s2); break;
            default: ok = Initialize2DArray(jag.data(), jr, jc, p2);
        }
    });
    disarm();
    bool failed = simalloc::failed != f0;
    if (failed) sim::mark_nontrivial();
    if (r < 0 || (r == 0 && kind != 1) || (kind >= 2 && kind <= 3 && c <= 0) || null_src || taken) expect = false;
    if (kind == 4) expect = r > 0;
    sim::log("op %d %dx%d -> %d failed %d", kind, r, c, ok, failed);
    if (taken && ((kind < 2 ? p1 != keep1 : p2 != keep2) || keep1[0] != (T) 7)) sim::violate("overwritten", "an existing array was replaced or changed");
    if (ok && (!expect || failed)) sim::violate("false-success", "kind %d %dx%d: success although %s", kind, r, c, failed ? "an allocation failed" : "it is impossible");
    if (!ok && expect && !failed) sim::violate("refused-healthy", "kind %d %dx%d refused", kind, r, c);
    if (!ok && !taken && (p1 || p2)) sim::violate("dangling", "kind %d %dx%d: failed but left a pointer behind", kind, r, c);
    int64_t made = simalloc::live_arrays() - l0;
    if (!ok && made) sim::violate("leak", "kind %d %dx%d: failed but kept %lld blocks", kind, r, c, (long long) made);
    if (ok && made != (kind < 2 ? 1 : 2)) sim::violate("leak", "kind %d %dx%d: %lld blocks instead of %d", kind, r, c, (long long) made, kind < 2 ? 1 : 2);
    // the source is as it was
    size_t k = 0;
    if (s1) for (int i = 0; i < r; i++, k++) if ((double) s1[i] != src[k]) sim::violate("source-changed", "element %d of the source changed", i);
    if (s2) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++, k++) if ((double) s2[i][j] != src[k]) sim::violate("source-changed", "element %d,%d of the source changed", i, j);
    for (size_t i = 1; i < jag.size(); i++) if ((double) jag[i] != src[i - 1]) sim::violate("source-changed", "element %zu of the source changed", i);
    if (ok) {
        if (kind < 2) hold1(h.get(), p1, r); else hold2(h.get(), p2, r, c);
        if (kind == 0 || kind == 2) h->vals.assign((size_t) r * (kind ? c : 1), cv<T>((double) (S) v));
        else for (double d : src) h->vals.push_back(cv<T>(d));
        if (kind == 4) {
            int mx = -1; for (int n : h->len) mx = std::max(mx, n);
            if (jr != r || jc != mx) sim::violate("counts", "ragged array reports %d rows, widest %d, not %d, %d", jr, jc, r, mx);
            h->jag = true; h->rows = r;
        }
        string d = verify(h.get()); if (!d.empty()) sim::violate("wrong-value", "kind %d: %s", kind, d.c_str());
        if (kind == 3 || kind == 2) for (int i = 1; i < r; i++) if (p2[i] != p2[0] + (size_t) i * c) sim::violate("layout", "rows are not consecutive");
        held.push_back(std::move(h));
    }
    delete[] s1; if (s2) { for (int i = 0; i < r; i++) delete[] s2[i]; delete[] s2; }
    return ok;
}
void prop_run() {
    simthr::configure_from_tape();
    simalloc::start(); g_base = simalloc::live_arrays();
    vector<std::unique_ptr<Held>> held;
    int n = sim::range(2, 14);
    for (int i = 0; i < n; i++) {
        if (!held.empty() && (held.size() >= 6 || sim::flip(1, 4))) {
            size_t k = sim::draw((uint32_t) held.size());
            if (sim::flip(1, 2)) arm();       // releasing never allocates
            guarded("release", [&]() { held[k]->release(); if (!held[k]->gone()) sim::violate("dangling", "released array still points somewhere"); if (sim::flip(1, 2)) held[k]->release(); });
            disarm();
            held.erase(held.begin() + (long) k);
        } else {
            int kind = (int) sim::draw(6);
            if (kind == 5) {
                simalloc::counting = true; int64_t l0 = simalloc::live_arrays(); float *a = nullptr, *b = nullptr, *c = nullptr;
                guarded("batch", [&]() { Initialize1DArray(3, a, 1.f); Initialize1DArray(5, b, 2.f); Initialize1DArray(1, c, 2.f); BatchRelease1DArray(a, b, c, nullptr); });
                if (simalloc::live_arrays() != l0) sim::violate("leak", "batch release left %lld blocks", (long long) (simalloc::live_arrays() - l0));
            } else switch (sim::draw(5)) {
                case 0: op<float, float>(held, kind); break;
                case 1: op<double, float>(held, kind); break;
                case 2: op<int, double>(held, kind); break;
                case 3: op<float, int>(held, kind); break;
                default: op<signed char, unsigned char>(held, kind);
            }
        }
        for (auto& h : held) { string d = verify(h.get()); if (!d.empty()) sim::violate("disturbed", "another array changed: %s", d.c_str()); }
        if (simalloc::live_arrays() - g_base != outstanding(held)) sim::violate("leak", "%lld blocks outstanding, %lld belong to live arrays", (long long) (simalloc::live_arrays() - g_base), (long long) outstanding(held));
    }
    for (auto& h : held) guarded("release", [&]() { h->release(); });
    if (simalloc::live_arrays() != g_base) sim::violate("leak", "%lld blocks never released", (long long) (simalloc::live_arrays() - g_base));
    simalloc::stop();
}
