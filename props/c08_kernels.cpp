#include "props/raster_model.h"
#include "props/write_cases.h"
#include "utils_math.h"
#include <map>
const char* const kPropertyId = "C08";
const char* const kRule = "One run = 1-4 kernels over generated contents: array creation by value and by conversion (1D/2D), plain and indexed sums, 1D/2D statistics, raster construction, no-data replacement, reclassification, positions, raster statistics, masked and layered loading, output with type conversion. Each is run by teams of different sizes (set through the library's own thread settings), with loops cut and switched by the tape down to single memory accesses; results are compared with a sequential model and with each other, and every memory access is checked for a happens-before order. Non-trivial: workers were switched inside a team.";
const char* const kRealComponents = "CCGL data_raster/utils_array/utils_math (instrumented memory accesses), GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "OpenMP runtime and threads (coroutines under the tape), ThreadSanitizer runtime (replaced by scheduling and happens-before checking), kernel file system (simulated disk below libc), memory allocator (accounting around the real one)";
void prop_init() { raster_init(); }
extern "C" int omp_get_max_threads(void);
static int g_variant = 0;
// another team size, through the library
static void retune() {
    static const int n[] = {1, 2, 3, 4, 5, 8, 16, 64, 0, -3};
    guarded("threads", [&]() {
        int before = omp_get_max_threads();
        if (sim::flip(1, 6)) { simthr::nprocs = n[sim::draw(7)]; SetDefaultOpenMPThread(); int want = simthr::nprocs / 2 > 0 ? simthr::nprocs / 2 : 1; if (omp_get_max_threads() != want) sim::violate("default-threads", "default thread number is %d with %d processors", omp_get_max_threads(), simthr::nprocs); return; }
        int k = n[sim::draw(10)]; SetOpenMPThread(k);
        if (omp_get_max_threads() != (k > 0 ? k : before) && (k || omp_get_max_threads() != 1)) sim::violate("threads", "%d threads after %d were asked for", omp_get_max_threads(), k);
    });
    simthr::dynamic_teams = sim::flip(1, 6);
}
static int rounds() { return sim::range(1, 3); }
static int big() { switch (sim::weighted({6, 2, 1})) { case 0: return sim::range(1, 20); case 1: return sim::range(20, 300); default: return sim::range(300, 3000); } }

template <class T, class S> void arrays() {
    int n = big(), m = sim::range(1, 9), kind = (int) sim::draw(4); if (kind >= 2) n = std::min(n, 200);
    vector<S> src; for (int i = 0; i < n * (kind == 3 ? m : 1); i++) src.push_back((S) sim::draw(120));
    vector<S*> rows; if (kind == 3) for (int i = 0; i < n; i++) rows.push_back(src.data() + (size_t) i * m);
    S v = (S) sim::draw(120);
    for (int k = rounds(); k > 0; k--) {
        if (k > 1) retune();
        T* a = nullptr; T** b = nullptr; bool ok = false;
        sim::log("array kind %d, %d x %d", kind, n, m);
        guarded("initialize", [&]() { ok = kind == 0 ? utils_array::Initialize1DArray(n, a, v) : kind == 1 ? utils_array::Initialize1DArray(n, a, src.data()) : kind == 2 ? utils_array::Initialize2DArray(n, m, b, v) : utils_array::Initialize2DArray(n, m, b, rows.data()); });
        if (!ok) sim::violate("array:refused", "kind %d of %d x %d refused", kind, n, m);
        for (int i = 0; i < n; i++) for (int j = 0; j < (kind < 2 ? 1 : m); j++) {
            T got = kind < 2 ? a[i] : b[i][j], want = kind == 1 ? (T) src[(size_t) i] : kind == 3 ? (T) src[(size_t) i * m + j] : (T) v;
            if (!(got == want)) sim::violate("array", "kind %d: element %d,%d is %g instead of %g", kind, i, j, (double) got, (double) want);
        }
        guarded("release", [&]() { if (a) utils_array::Release1DArray(a); if (b) utils_array::Release2DArray(b); });
    }
}
template <class T> void near(const char* cls, const char* what, double got, long double want, long double scale, double tol) {
    if (!(std::fabs(got - (double) want) <= (double) scale * tol + 1e-300) && !(std::isnan(got) && std::isnan((double) want))) sim::violate(cls, "%s is %.17g instead of %.17g", what, got, (double) want);
}
template <class T> void sums() {
    static const double offs[] = {0, 0, 300, -300}; double off = offs[sim::draw(4)];
    int n = big(); vector<T> a; vector<int> idx; int* ip = nullptr; long double want = 0, wanti = 0, mag = 0;
    double lim = std::numeric_limits<T>::is_integer ? std::min(100., (double) std::numeric_limits<T>::max() / n) : 100;
    for (int i = 0; i < n; i++) { double v = std::numeric_limits<T>::is_integer ? (double) sim::draw((uint32_t) lim + 1) : (double) (T) (((double) sim::draw(20001) - 10000) / 100 + off); a.push_back((T) v); want += a.back(); mag += std::fabs((double) a.back()); }
    int k = sim::range(0, n); for (int i = 0; i < k; i++) { idx.push_back((int) sim::draw((uint32_t) n)); }
    if (std::numeric_limits<T>::is_integer && n > 50) { idx.resize(std::min<size_t>(idx.size(), 50)); }
    for (int i : idx) wanti += a[(size_t) i];
    ip = idx.data(); double tol = std::numeric_limits<T>::is_integer ? 0 : sizeof(T) == 4 ? 1e-4 : 1e-12;
    for (int r = rounds(); r > 0; r--) {
        if (r > 1) retune();
        sim::log("sum of %d, indexed %zu", n, idx.size());
        guarded("sum", [&]() {
            near<T>("sum", "the sum", (double) utils_math::Sum<T>(n, a.data()), want, mag, tol);
            T mx = *std::max_element(a.begin(), a.end()), mn = *std::min_element(a.begin(), a.end());
            T gx = utils_math::MaxInArray(a.data(), n), gn = utils_math::MinInArray(a.data(), n);
            if (gx != mx || gn != mn) sim::violate("extremes", "maximum %g, minimum %g instead of %g, %g", (double) gx, (double) gn, (double) mx, (double) mn);
            if (!idx.empty()) near<T>("sum:indexed", "the indexed sum", (double) utils_math::Sum<T>((int) idx.size(), ip, a.data()), wanti, mag * 2, tol);
        });
    }
}
struct St { double n = 0, mean = 0, mx = 0, mn = 0, sd = 0; };
template <class F> St stat_of(int n, F at, double nd) {
    St s; long double sum = 0, var = 0;
    for (int i = 0; i < n; i++) { double v = at(i); if (v == nd) continue; if (!s.n || v > s.mx) s.mx = v; if (!s.n || v < s.mn) s.mn = v; s.n++; sum += v; }
    if (!s.n) return s;
    s.mean = (double) (sum / s.n);
    for (int i = 0; i < n; i++) if (at(i) != nd) var += (at(i) - (sum / s.n)) * (at(i) - (sum / s.n));
    s.sd = (double) sqrtl(var / s.n);
    return s;
}
static void same_stat(const char* cls, const char* who, int l, const St& w, double n, double mean, double mx, double mn, double sd, double range) {
    double scale = 1 + std::max(std::fabs(w.mx), std::fabs(w.mn));
    if (n != w.n) sim::violate(cls, "%s layer %d: %g valid cells instead of %g", who, l + 1, n, w.n);
    if (!w.n) return;
    if (mx != w.mx || mn != w.mn || std::fabs(mean - w.mean) > scale * 1e-9 || std::fabs(sd - w.sd) > scale * 1e-7 || std::fabs(range - (w.mx - w.mn)) > scale * 1e-9)
        sim::violate(cls, "%s layer %d: mean %.17g, maximum %.17g, minimum %.17g, deviation %.17g, range %.17g instead of %.17g, %.17g, %.17g, %.17g, %.17g", who, l + 1, mean, mx, mn, sd, range, w.mean, w.mx, w.mn, w.sd, w.mx - w.mn);
}
template <class T> void statistics() {
    int L = sim::flip(1, 2) ? 1 : sim::range(2, 5), n = L == 1 ? big() : std::min(big(), 300); T nd = (T) gen_nodata<T>(); uint32_t many = sim::draw(9);
    vector<vector<T>> a((size_t) n, vector<T>((size_t) L)); vector<T*> rows; vector<T> one;
    for (auto& r : a) { for (auto& v : r) v = sim::draw(8) < many ? nd : (T) gen_value<T>(); rows.push_back(r.data()); one.push_back(r[0]); }
    for (int k = rounds(); k > 0; k--) {
        if (k > 1) retune();
        sim::log("statistics of %d x %d", n, L);
        if (L == 1) {
            double* d = nullptr; guarded("statistics", [&]() { utils_math::BasicStatistics(one.data(), n, &d, nd); });
            same_stat("statistics", "array", 0, stat_of(n, [&](int i) { return (double) one[(size_t) i]; }, (double) nd), d[0], d[1], d[2], d[3], d[4], d[5]);
            delete[] d;
        } else {
            double** d = nullptr; guarded("statistics", [&]() { utils_math::BasicStatistics((const T* const*) rows.data(), n, L, &d, nd); });
            for (int l = 0; l < L; l++) same_stat("statistics", "array", l, stat_of(n, [&](int i) { return (double) a[(size_t) i][(size_t) l]; }, (double) nd), d[0][l], d[1][l], d[2][l], d[3][l], d[4][l], d[5][l]);
            for (int i = 0; i < 6; i++) delete[] d[i];
            delete[] d;
        }
    }
}
template <class T> Grid random_layers() { int L = sim::flip(1, 2) ? 1 : sim::range(2, 4); Grid g = gen_grid<T>(L); return g; }
template <class T> void raster_stats(clsRasterData<T, int>* r, const Grid& g) {
    for (int l = 0; l < g.lyrs; l++)
        same_stat("raster-statistics", "raster", l, stat_of(g.n(), [&](int i) { return g.v[(size_t) l][(size_t) i]; }, g.nodata), r->GetValidNumber(l + 1), r->GetAverage(l + 1), r->GetMaximum(l + 1), r->GetMinimum(l + 1), r->GetStd(l + 1), r->GetRange(l + 1));
}
template <class T> void same_raster(clsRasterData<T, int>* r, const Grid& g, const char* when) {
    string d = diff_grid(view(r), g, false);
    if (!d.empty()) sim::violate("raster", "%s: %s", when, d.c_str());
}
// a raster in memory through a pipeline of kernels
template <class T> void pipeline() {
    typedef clsRasterData<T, int> R;
    Grid g0 = random_layers<T>(); bool two = g0.lyrs > 1, copy = sim::flip(1, 3); int plan[4]; int steps = sim::range(1, 4);
    T repl = (T) gen_value<T>(); std::map<int, T> m; for (int j = sim::range(0, 4); j > 0; j--) m[(int) sim::draw(8)] = (T) gen_value<T>();
    bool sane = true; for (auto& L : g0.v) for (double x : L) sane &= std::fabs(x) < 2e9;
    for (int& p : plan) p = (int) sim::draw(4);
    for (int k = rounds(); k > 0; k--) {
        if (k > 1) retune();
        Grid g = g0; R *r = nullptr, *c = nullptr;
        sim::log("raster %dx%d, %d layers, %d steps", g.rows, g.cols, g.lyrs, steps);
        guarded("construct", [&]() { STRING_MAP o; r = two ? new R(to_array2d<T>(g), g.cols, g.rows, g.lyrs, (T) g.nodata, g.dx, g.xll, g.yll, o) : new R(to_array<T>(g), g.cols, g.rows, (T) g.nodata, g.dx, g.xll, g.yll, o); });
        same_raster(r, g, "after construction");
        if (copy) { guarded("copy", [&]() { c = new R(r); }); same_raster(c, g, "copy"); delete r; r = c; }
        vector<char> stored((size_t) g.n(), 1); bool pos = false, gone = false;
        for (int s = 0; s < steps; s++) {
            switch (plan[s]) {
                case 0: guarded("replace", [&]() { r->ReplaceNoData(repl); }); for (auto& L : g.v) for (size_t i = 0; i < L.size(); i++) if (L[i] == g.nodata) L[i] = (double) repl; g.nodata = (double) repl; sane &= std::fabs((double) repl) < 2e9; break;
                case 1: if (!sane) break;
                    guarded("reclassify", [&]() { r->Reclassify(m); });
                    for (auto& L : g.v) for (size_t i = 0; i < L.size(); i++) if (stored[i]) { auto it = m.find((int) L[i]); L[i] = it == m.end() ? g.nodata : (double) it->second; }
                    for (auto& kv : m) sane &= std::fabs((double) kv.second) < 2e9;
                    break;
                case 2: guarded("statistics", [&]() { r->UpdateStatistics(); raster_stats(r, g); }); break;
                default: if (pos) break; pos = true;
                    guarded("positions", [&]() { r->SetCalcPositions(); });
                    { int n = 0; for (int i = 0; i < g.n(); i++) { stored[(size_t) i] = g.v[0][(size_t) i] != g.nodata; n += stored[(size_t) i]; if (!stored[(size_t) i]) for (auto& L : g.v) L[(size_t) i] = g.nodata; }
                      if (r->GetCellNumber() != n) sim::violate("positions", "%d cells stored instead of %d", r->GetCellNumber(), n);
                      gone = n == 0; }
            }
            if (gone) break;                 // nothing stored
            same_raster(r, g, "after a kernel");
        }
        guarded("delete", [&]() { delete r; });
    }
}
// loading of layers with a mask
template <class T> void loading() {
    typedef clsRasterData<T, int> R;
    Grid a = random_layers<T>(); vector<Grid> lay; vector<string> fs; bool asc = sim::flip(1, 2), masked = sim::flip(2, 3), calc = sim::flip(1, 2), ext = sim::flip(1, 2); double d = sim::flip(1, 4) ? 3 : NODATA_VALUE;
    for (int l = 0; l < a.lyrs; l++) { Grid x = a; x.lyrs = 1; x.v.assign(1, a.v[(size_t) l]); lay.push_back(x); fs.push_back("/sim/in/l_" + std::to_string(l + 1) + (asc ? ".asc" : ".tif")); if (asc) simfs::put(fs.back(), asc_text(x)); else tif_put(fs.back(), x, gdt_of<T>()); }
    Grid mg; if (masked) { mg = gen_mask(a); simfs::put("/sim/in/mask.asc", asc_text(mg)); }
    Load want = model_load<T>(lay, masked ? &mg : nullptr, ext, d);
    bool any = false; if (want.ok) for (double v : want.g.v[0]) any |= v != want.g.nodata;
    for (int k = rounds(); k > 0; k--) {
        if (k > 1) retune();
        clsRasterData<int>* mr = nullptr; R* r = new R(a.lyrs > 1); bool ok = false;
        sim::log("load %d layers %dx%d mask %d calc %d ext %d default %g -> %d", a.lyrs, a.rows, a.cols, masked, calc, ext, d, want.ok);
        guarded("load", [&]() {
            if (masked) { mr = new clsRasterData<int>(); if (!mr->ReadFromFile("/sim/in/mask.asc", sim::flip(1, 2))) sim::harness_error("mask not loaded"); }
            ok = a.lyrs == 1 ? r->ReadFromFile(fs[0], calc, mr, ext, d) : r->ReadFromFiles(fs, calc, mr, ext, d);
        });
        if (ok && !want.ok) sim::violate("load", "loaded although no cell of the mask has a value");
        if (!ok && want.ok && any) sim::violate("load", "not loaded");
        if (ok && r->ValidateRasterData()) {
            string df = diff_load(view(r), want, false); if (!df.empty()) sim::violate("load", "%s", df.c_str());
            guarded("statistics", [&]() { Grid v = view(r); raster_stats(r, v); });
        }
        guarded("delete", [&]() { delete r; delete mr; });
    }
}
static void output() {
    Case c = make_case(); bool asc = sim::flip(1, 3); int k = rounds();
    for (int i = 0; i < k; i++) {
        if (i) retune();
        string p = "/sim/out/r" + std::to_string(i) + (asc ? ".asc" : ".tif"); simfs::mkdirs("/sim/out"); bool ok = false;
        sim::log("write %s: %s, legal %d", p.c_str(), c.what.c_str(), c.legal);
        guarded("write", [&]() { ok = c.write(p); });
        bool any = false; for (double v : c.want.v[0]) any |= v != c.want.nodata;
        if (!ok && !any) continue;            // nothing stored
        if (!asc && ok != c.legal) sim::violate("write", "%s: writing %s returned %d", c.what.c_str(), p.c_str(), ok);
        if (asc && !ok) sim::violate("write", "%s: writing %s failed", c.what.c_str(), p.c_str());
        if (ok) for (auto& o : c.outs(p)) { string d = o.asc ? diff_asc(o.path, c.want, o.lyr, c.integral) : diff_tif(o.path, c.want_tif, o.lyr, c.gdt); if (!d.empty()) sim::violate("written", "%s: %s", c.what.c_str(), d.c_str()); }
    }
    guarded("delete", [&]() { c.done(); });
}
void prop_run() {
    simfs::reset(); simfs::mkdirs("/sim/in"); simthr::configure_from_tape(); simthr::races = true;
    for (int i = sim::range(1, 4); i > 0; i--) {
        switch (sim::weighted({2, 1, 2, 3, 3, 3})) {
            case 0: switch (sim::draw(4)) { case 0: arrays<float, float>(); break; case 1: arrays<double, int>(); break; case 2: arrays<int, double>(); break; default: arrays<signed char, unsigned char>(); } break;
            case 1: switch (sim::draw(3)) { case 0: sums<double>(); break; case 1: sums<int>(); break; default: sums<float>(); } break;
            case 2: switch (sim::draw(4)) { case 0: statistics<double>(); break; case 1: statistics<int>(); break; case 2: statistics<unsigned char>(); break; default: statistics<float>(); } break;
            case 3: switch (sim::draw(4)) { case 0: pipeline<float>(); break; case 1: pipeline<int>(); break; case 2: pipeline<double>(); break; default: pipeline<short>(); } break;
            case 4: switch (sim::draw(4)) { case 0: loading<float>(); break; case 1: loading<int>(); break; case 2: loading<double>(); break; default: loading<short>(); } break;
            default: output();
        }
    }
    if (simthr::switches) sim::mark_nontrivial();
    check_escapes();
}
