#include "props/clock_model.h"
#include "props/lifecycle.h"
#include "utils_filesystem.h"
#include "utils_math.h"
#include "utils_string.h"
using namespace ccgl::utils_filesystem;
using namespace ccgl::utils_string;
using namespace ccgl::utils_time;
const char* const kPropertyId = "C09";
const char* const kRule = "One run = 2-4 caller threads, each with its own directory and 2-6 jobs: raster histories, raster pipelines through files, date and time conversions, clock readings, string and number helpers, array and statistics kernels with nested worker teams, thread settings, path helpers, directory and file work, logging. Every job is first run alone; then all callers run together, switched by the tape at every synchronisation, clock read, disk operation and (in most runs) memory access, one of them possibly under disk faults. Results and files are compared with the run alone, and every memory access is checked for a happens-before order. Non-trivial: callers were switched while they worked.";
const char* const kRealComponents = "CCGL data_raster/utils/basic (instrumented memory accesses), GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams, libc conversions";
const char* const kStubComponents = "threads and OpenMP runtime (coroutines under the tape), ThreadSanitizer runtime (replaced by scheduling and happens-before checking), kernel file system (simulated disk below libc), clocks, thread-local storage (swapped with the thread)";
extern "C" int omp_get_max_threads(void);
void prop_init() { raster_init(); }

typedef std::function<string(const string&)> Job;      // directory -> what the caller saw
template <class... A> static string S(const char* f, A... a) { char b[512]; snprintf(b, sizeof b, f, a...); return string(b) + "\n"; }
static string joined(const vector<string>& v) { string r; for (auto& s : v) r += "<" + s + ">"; return r + "\n"; }
static string show_tm(const struct tm& t) { return S("%d-%d-%d %d:%d:%d %d %d %d", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday, t.tm_isdst); }
static string hexed(const string& s) { return S("%zu bytes %016llx", s.size(), (unsigned long long) sim::fnv(s.data(), s.size())); }

static Job job_time() {
    time_t t = (time_t) sim::draw(2000000000u); bool utc = sim::flip(1, 2); int y = sim::range(1971, 2035), m = sim::range(1, 12), d = sim::range(1, 28), h = (int) sim::draw(24), k = sim::range(1, 3); int mil = (int) sim::draw(1000), delta = (int) sim::draw(100000000);
    return [=](const string&) {
        string r;
        for (int i = 0; i < k; i++) {
            time_t u = t + i * 86399;
            string a = ConvertToString(u, utc), b = ConvertToString2(u, utc), c = ConvertToString3(u, utc);
            r += a + "|" + b + "|" + c + "\n";
            r += S("%lld %lld", (long long) ConvertToTime(b, "%d-%d-%d %d:%d:%d", true, utc), (long long) ConvertToTime(a, "%4d-%2d-%2d", false, utc));
            int yy = y, mm = m, dd = d; time_t v = ConvertYMDToTime(yy, mm, dd, utc); int y2 = 0, m2 = 0, d2 = 0; int rc = GetDateInfoFromTimet(v, &y2, &m2, &d2, utc);
            r += S("%lld %d %d %d %d", (long long) v, rc, y2, m2, d2);
            struct tm q; memset(&q, 0, sizeof q); GetDateTime(u, &q, utc); r += show_tm(q);
            r += S("%d %d %d %d %d %d %d", GetYear(u, utc), GetMonth(u, utc), GetDay(u, utc), DayOfYear(u, utc), JulianDay(u, utc), DayOfYear(y, m, d), JulianDay(y, m, d));
            DateTime x = DateTime::FromDateTime(y, m, d, h, i, 59, mil); r += show(x) + "\n" + show(x.ToUTCTime()) + "\n" + show(x.ToLocalTime()) + "\n" + show(x.Forward(delta)) + "\n" + show(x.Backward(delta)) + "\n" + show(DateTime::FromFileTime((vuint64_t) u * 1000 + (vuint64_t) mil)) + "\n";
        }
        return r;
    };
}
static string gen_text() { string s; for (int n = sim::range(0, 30); n > 0; n--) s += "aB z,;3.-9\t#Q7"[sim::draw(14)]; return s; }
static Job job_text() {
    vector<string> in; for (int n = sim::range(1, 4); n > 0; n--) in.push_back(gen_text());
    long num = (long) sim::draw(2000000) - 1000000; double dbl = (double) num / 977;
    return [=](const string&) {
        string r;
        for (auto& s : in) {
            string a = s, b = s; TrimSpaces(a); Trim(b); r += "[" + a + "][" + b + "][" + GetUpper(s) + "]" + joined(SplitString(s)) + joined(SplitString(s, ','));
            vector<double> v; bool k = SplitStringForValues(s, ',', v); r += S("%d %zu %g", k, v.size(), v.empty() ? 0. : v[0]);
            bool o1 = false, o2 = false, o3 = false; vint i = IsInt(s, o1); double d = IsDouble(s, o2); vuint u = IsUInt(s, o3); r += S("%d %lld %d %.17g %d %llu", o1, (long long) i, o2, d, o3, (unsigned long long) u);
            r += S("%d %d", StringMatch(s, in[0]), StringMatch(s.c_str(), GetUpper(s).c_str())) + wtoa(atow(s)) + "\n";
        }
        r += itoa(num) + " " + i64toa(num * 77777ll) + " " + utoa((vuint) labs(num)) + " " + ftoa(dbl) + " " + ValueToString(dbl) + " " + wtoa(itow(num)) + " " + wtoa(ftow(dbl)) + "\n";
        STRING_MAP a, b; for (size_t i = 0; i < in.size(); i++) UpdateStringMap(a, "K" + std::to_string(i), in[i]); CopyStringMap(a, b); for (auto& kv : b) r += kv.first + "=" + kv.second + ";";
        r += S("%d %d", ccgl::IsIpAddress("10.0.0.255"), ccgl::IsIpAddress(in[0].c_str()));
        return r;
    };
}
static Job job_numbers() {
    int n = sim::range(1, 60), L = sim::range(1, 4), teams = sim::range(1, 6); bool set = sim::flip(1, 2); vector<double> v; vector<int> w; for (int i = 0; i < n * L; i++) { v.push_back(sim::flip(1, 5) ? -9999. : (double) sim::draw(1000)); w.push_back((int) sim::draw(1000)); }
    float x = (float) sim::draw(100) / 7 + .5f;
    return [=](const string&) {
        string r; int before = omp_get_max_threads();
        if (set) { ccgl::SetOpenMPThread(teams); r += S("threads %d", omp_get_max_threads()); }
        double *a = nullptr, **b = nullptr; int* c = nullptr; float** e = nullptr; vector<const double*> rows; for (int i = 0; i < n; i++) rows.push_back(v.data() + (size_t) i * L);
        utils_array::Initialize1DArray(n, a, v.data()); utils_array::Initialize2DArray(n, L, b, rows.data()); utils_array::Initialize1DArray(n, c, 7); utils_array::Initialize2DArray(n, L, e, 2.5f);
        double da = 0, db = 0, de = 0; long dc = 0; for (int i = 0; i < n; i++) { da += a[i] * (i + 1); dc += c[i]; for (int l = 0; l < L; l++) { db += b[i][l] * (i + l + 1); de += e[i][l]; } }
        r += S("%.17g %.17g %ld %g", da, db, dc, de);
        r += S("%ld %.17g %.17g", (long) utils_math::Sum(n, w.data()), utils_math::MaxInArray(a, n), utils_math::MinInArray(a, n));
        double *st = nullptr, **st2 = nullptr; utils_math::BasicStatistics(a, n, &st); utils_math::BasicStatistics(const_cast<const double* const*>(b), n, L, &st2);
        r += S("%.9g %.9g %.9g %.9g %.9g %.9g", st[0], st[1], st[2], st[3], st[4], st[5]);
        for (int l = 0; l < L; l++) r += S("%.9g %.9g %.9g", st2[0][l], st2[1][l], st2[4][l]);
        delete[] st; for (int i = 0; i < 6; i++) delete[] st2[i]; delete[] st2;
        r += S("%.7g %.7g %.7g %.7g %.7g", (double) utils_math::Expo(x), (double) utils_math::Power(x, 1.5f), (double) utils_math::CalExp(x), (double) utils_math::CalLn(x), (double) utils_math::CalPow(x, 1.25f));
        utils_array::Release1DArray(a); utils_array::Release1DArray(c); utils_array::Release2DArray(b); utils_array::Release2DArray(e);
        if (set) ccgl::SetOpenMPThread(before);
        return r;
    };
}
static Job job_paths() {
    vector<string> names; static const char* pre[] = {"/sim/x/", "", "a b/", "../"}; for (int n = sim::range(1, 4); n > 0; n--) names.push_back(string(pre[sim::draw(4)]) + (sim::flip(1, 3) ? "dem" : "Long.core_name") + (sim::flip(1, 4) ? "" : ".tif"));
    int end = (int) sim::draw(100);
    return [=](const string& dir) {
        string r;
        for (auto& n : names) r += GetCoreFileName(n) + "|" + GetSuffix(n) + "|" + ReplaceSuffix(n, "asc") + "|" + AppendCoreFileName(n, "x") + "|" + AppendCoreFileName(n, (vint) end) + "|" + PrefixCoreFileName(n, (vint) end) + "|" + PrefixCoreFileName(n, "p") + "|" + GetPathFromFullName(n) + "|" + ConcatFullName(GetPathFromFullName(n), GetCoreFileName(n), GetSuffix(n)) + "\n";
        r += GetAppPath() + "\n" + GetAbsolutePath(dir + "/./none") + "\n" + GetAbsolutePath(dir + "/") + "\n";
        return r;
    };
}
static string tree(const string& dir) {
    string r; for (auto& l : simfs::list_all()) if (l.find(dir + "/") != string::npos && l.find("log.txt") == string::npos) r += l + "\n";
    return r;
}
static Job job_files() {
    struct Op { int what, a, b; }; vector<Op> ops; for (int n = sim::range(2, 8); n > 0; n--) ops.push_back({(int) sim::draw(9), (int) sim::draw(4), (int) sim::draw(40)});
    return [=](const string& dir) {
        string r; const string d = dir + "/fs"; MakeDirectory(d);
        for (auto& o : ops) {
            string f = d + "/f" + std::to_string(o.a) + (o.b % 2 ? ".txt" : ".dat"), sub = d + "/s" + std::to_string(o.a) + "/t/u";
            switch (o.what) {
                case 0: { string text; for (int i = 0; i < o.b; i++) text += "line " + std::to_string(i * o.a) + (i % 3 ? "\n" : " # c\n\n"); std::ofstream out(f.c_str()); out << text; out.close(); break; }
                case 1: { vector<string> lines; bool k = LoadPlainTextFile(f, lines); r += S("load %d ", k) + joined(lines); break; }
                case 2: { bool k = MakeDirectory(sub); r += S("make %d %d", k, DirectoryExists(sub)); break; }
                case 3: { vector<string> fs; int rc = FindFiles(d.c_str(), o.b % 3 ? ".txt" : "*.*", fs); std::sort(fs.begin(), fs.end()); r += S("find %d ", rc) + joined(fs); break; }
                case 4: r += S("remove %d %d", DeleteExistedFile(f), FileExists(f)); break;
                case 5: r += S("replace %d %d", ReplaceExistedFile(f, d + "/g.txt"), PathExists(d + "/g.txt")); break;
                case 6: { bool k = o.b % 2 ? DeleteDirectory(d + "/s" + std::to_string(o.a)) : CleanDirectory(d + "/s" + std::to_string(o.a)); r += S("clean %d", k); break; }
                case 7: { ccgl::Log("message " + std::to_string(o.b), d + "/log.txt"); string t; simfs::get(d + "/log.txt", t); vector<string> l = SplitString(t, '\n'); for (auto& x : l) r += x.size() > 24 ? x.substr(24) + "\n" : "?" + x + "\n"; break; }
                default: { vector<string> fs = {f, d}; r += S("exist %d", FilesExist(fs)); }
            }
        }
        return r + tree(d);
    };
}
// raster work through files; the files must come out the same, byte by byte
template <class T> static Job job_raster() {
    Grid g = gen_grid<T>(sim::flip(1, 3) ? sim::range(2, 3) : 1); Grid mg = gen_mask(g); bool asc = sim::flip(1, 2), calc = sim::flip(1, 2), ext = sim::flip(1, 2), recl = sim::flip(1, 3), out_asc = sim::flip(1, 2), mem = sim::flip(1, 3), masked = sim::flip(2, 3); double d = sim::flip(1, 3) ? 3 : NODATA_VALUE;
    vector<string> texts;
    for (int l = 0; l < g.lyrs; l++) { Grid x = g; x.lyrs = 1; x.v.assign(1, g.v[(size_t) l]); if (asc) texts.push_back(asc_text(x)); else { tif_put("/sim/gen.tif", x, gdt_of<T>()); string t; simfs::get("/sim/gen.tif", t); texts.push_back(t); } }
    return [=](const string& dir) {
        typedef clsRasterData<T, int> R; string r; const string w = dir + "/ras"; simfs::mkdirs(w);
        vector<string> fs;
        for (int l = 0; l < g.lyrs; l++) { fs.push_back(w + "/l_" + std::to_string(l + 1) + (asc ? ".asc" : ".tif")); simfs::put(fs.back(), texts[(size_t) l]); }
        simfs::put(w + "/mask.asc", asc_text(mg));
        clsRasterData<int>* m = masked ? clsRasterData<int>::Init(w + "/mask.asc") : nullptr;
        R* rs; STRING_MAP o;
        if (mem && g.lyrs == 1) { rs = new R(to_array<T>(g), g.cols, g.rows, (T) g.nodata, g.dx, g.xll, g.yll, o); if (calc) rs->SetCalcPositions(); }
        else rs = g.lyrs == 1 ? R::Init(fs[0], calc, m, ext, d) : R::Init(fs, calc, m, ext, d);
        if (rs && rs->ValidateRasterData()) {
            if (recl) { std::map<int, T> c; c[1] = (T) 2; c[2] = (T) 5; rs->Reclassify(c); }
            rs->CalculateStatistics(); for (int l = 1; l <= rs->GetLayers(); l++) r += S("%d: %.9g %.9g %.9g", l, (double) rs->GetAverage(l), (double) rs->GetValidNumber(l), (double) rs->GetStd(l));
            map<int, int> grp; bool sub = rs->BuildSubSet(grp); r += S("subsets %d %zu", sub, rs->GetSubset().size());
            string f = w + "/out" + (out_asc ? ".asc" : ".tif"); bool k = rs->OutputToFile(f); r += S("written %d %d cells", k, rs->GetCellNumber());
            for (int l = 0; l <= rs->GetLayers() + 1; l++) for (int e = 0; e < 2; e++) { string p = w + "/out" + (l ? "_" + std::to_string(l - 1 + (int) !out_asc) : "") + (e ? ".asc" : ".tif"), t; if (simfs::get(p, t)) r += p + " " + hexed(t); }
        } else r += "no raster\n";
        delete rs; delete m;
        return r;
    };
}
static Job gen_job() {
    switch (sim::weighted({3, 2, 2, 2, 3, 4})) {
        case 0: return job_time(); case 1: return job_text(); case 2: return job_numbers(); case 3: return job_paths(); case 4: return job_files();
        default: switch (sim::draw(4)) { case 0: return job_raster<float>(); case 1: return job_raster<int>(); case 2: return job_raster<double>(); default: return job_raster<short>(); }
    }
}
static string without(const string& s, const string& dir) { string r = s; size_t p = 0; while ((p = r.find(dir, p)) != string::npos) r.replace(p, dir.size(), "DIR"); return r; }
struct Caller { string dir; vector<Job> jobs; vector<string> alone; vector<int> plan; bool faulty = false; };
static void clock_reading() {
    static const char* who[] = {"LocalTime", "UTCTime"}; bool utc = sim::flip(1, 2);
    int64_t a = ms(); DateTime d; guarded(who[utc], [&] { d = utc ? DateTime::UTCTime() : DateTime::LocalTime(); });
    instant(d, a, ms(), utc, utc ? "torn-utc" : "torn-local");
    int64_t b0 = simclock::mono_ns; double e0 = 0, e1 = 0; guarded("TimeCounting", [&] { e0 = TimeCounting(); }); int64_t b1 = simclock::mono_ns; guarded("TimeCounting", [&] { e1 = TimeCounting(); }); int64_t b2 = simclock::mono_ns;
    if (e1 - e0 < -1e-6 || e1 - e0 > (double) (b2 - b0) / 1e9 + 2e-6) sim::violate("wrong-elapsed", "elapsed time is %.6f s, the clock advanced by %.6f s", e1 - e0, (double) (b2 - b0) / 1e9);
    (void) b1;
}
static void work(Caller& c) {
    size_t j = 0;
    for (int p : c.plan) {
        if (p == 1) { clock_reading(); continue; }
        if (p >= 2) {
            auto live = [&](auto zero) { Life<decltype(zero)> w; w.faults = c.faulty; w.nested = true; w.bounded = false; w.dir = c.dir; w.go(sim::range(2, 9)); };
            switch (p) { case 2: live(0.f); break; case 3: live(0); break; case 4: live(0.); break; default: live((short) 0); }
            continue;
        }
        vector<simfs::Rule> rules;
        if (c.faulty && sim::flip(2, 3)) { rules.push_back(draw_rule({{simfs::READ, {EIO}}, {simfs::WRITE, {EIO, ENOSPC}}, {simfs::OPEN_R | simfs::OPEN_W, {EACCES, EMFILE}}, {simfs::STAT, {EIO}}, {simfs::UNLINK | simfs::MKDIR | simfs::RMDIR | simfs::RENAME, {EIO, EACCES}}}, 12)); rules.back().under = c.dir; simfs::arm(rules); }
        uint64_t f0 = simfs::fault_count; string got; const string dir = c.dir + "/j" + std::to_string(j); simfs::mkdirs(dir);
        guarded("job", [&] { got = without(c.jobs[j](dir), dir); });
        if (!rules.empty()) simfs::disarm();
        sim::log("%s job %zu: %016llx", c.dir.c_str(), j, (unsigned long long) sim::fnv(got.data(), got.size()));
        if (got != c.alone[j] && !(c.faulty && simfs::fault_count != f0)) {
            size_t k = 0; while (k < got.size() && k < c.alone[j].size() && got[k] == c.alone[j][k]) k++;
            size_t a = got.rfind('\n', k ? k - 1 : 0), b = got.find('\n', k), x = c.alone[j].find('\n', k); a = a == string::npos ? 0 : a + 1;
            sim::violate("disturbed", "caller %s job %zu saw '%.150s' instead of '%.150s' when alone", c.dir.c_str(), j, got.substr(a, b == string::npos ? b : b - a).c_str(), c.alone[j].substr(a, x == string::npos ? x : x - a).c_str());
        }
        j++;
    }
}
void prop_run() {
    simfs::reset(); simfs::sim_relative = true; simfs::sim_cwd = "/sim/cwd"; simfs::mkdirs("/sim/cwd");
    static const char* tzs[] = {"UTC0", "CST-8", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"};
    setenv("TZ", tzs[sim::draw(4)], 1); tzset();
    simclock::wall_ns = (1700000000 + (int64_t) sim::draw(31536000)) * G + (int64_t) sim::draw(1000) * 1000000; simclock::mono_ns = 1000 * G;
    int n = sim::range(2, 4); vector<Caller> cs((size_t) n);
    simthr::configure_from_tape();
    if (simthr::policy == simthr::RUN_TO_BLOCK && sim::flip(3, 4)) simthr::policy = simthr::SYNC_POINTS;
    if (simthr::burst < 20) simthr::burst = 20;
    sim::set_step_limit(20000000);
    int bad = sim::flip(1, 3) ? (int) sim::draw((uint32_t) n) : -1;
    for (int i = 0; i < n; i++) {
        Caller& c = cs[(size_t) i]; c.dir = "/sim/t" + std::to_string(i); c.faulty = i == bad; simfs::mkdirs(c.dir);
        for (int k = sim::range(2, 6); k > 0; k--) {
            int p = (int) sim::weighted({12, 2, 1, 1, 1, 1}); c.plan.push_back(p);
            if (p) continue;
            if (i && !cs[0].jobs.empty() && sim::flip(1, 4)) c.jobs.push_back(sim::pick(cs[0].jobs)); else c.jobs.push_back(gen_job());   // the same work in several threads
            const string dir = "/sim/alone/t" + std::to_string(i) + "/j" + std::to_string(c.jobs.size() - 1); simfs::mkdirs(dir);
            string r; guarded("job-alone", [&] { r = without(c.jobs.back()(dir), dir); }); c.alone.push_back(r);
            sim::log("%s job %zu alone: %016llx", c.dir.c_str(), c.jobs.size() - 1, (unsigned long long) sim::fnv(r.data(), r.size()));
        }
    }
    simthr::races = true; simfs::yield_points = true;
    simclock::on_read = [&] { simclock::tick((uint64_t) sim::draw(3) * 700000); simthr::yield(); };
    if (bad >= 0) simfs::op_bound = simfs::op_count + 60000;
    uint64_t s0 = simthr::switches;
    for (auto& c : cs) { Caller* p = &c; simthr::spawn([p] { work(*p); }, "caller"); }
    simthr::join_all();
    simclock::on_read = nullptr; simfs::yield_points = false;
    if (simthr::switches > s0 + 2 * (uint64_t) n) sim::mark_nontrivial();
    if (simfs::open_handles() && bad < 0) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
    check_escapes();
}
