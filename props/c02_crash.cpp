#include "props/write_cases.h"
const char* const kPropertyId = "C02";
const char* const kRule = "One run = a completed raster write, then 1-3 overwrites under the same name, each killed after a drawn number of file-system changes (the last write torn at a drawn byte), alone or together with one disk fault; after each kill the disk is restored as the kernel holds it and every output file is loaded. Non-trivial: a kill happened inside a write.";
const char* const kRealComponents = "CCGL data_raster/utils, GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc), OpenMP runtime (scheduler under the tape), process kill (disk snapshot between two file-system changes)";
void prop_init() { raster_init(); }

struct Version { Grid g; int lyr; bool asc, integral; GDALDataType gdt; };

// what the library's own reader makes of the file
static bool load(const string& path, Grid& g) {
    bool ok = false;
    guarded("load-after-crash", [&]() {
        clsRasterData<double>* rs = clsRasterData<double>::Init(path);
        ok = rs != nullptr;
        if (ok) { g = view(rs); delete rs; }
    });
    return ok;
}
static string against(const Grid& got, const Version& v) {
    Grid w = v.g; w.lyrs = 1; w.v.assign(1, v.g.v[v.lyr]);
    if (v.asc) {
        w.xll = six(w.xll); w.yll = six(w.yll); w.dx = six(w.dx); w.nodata = six(w.nodata);
        if (!v.integral) for (auto& d : w.v[0]) d = six(d);
    }
    return diff_grid(got, w, v.asc);
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    simfs::mkdirs("/sim/in"); simfs::mkdirs("/sim/out");
    string path = kOutNames[sim::weighted({6, 6, 1, 1, 1})];
    std::map<string, vector<Version>> ok_versions;     // per file: acceptable contents
    auto add = [&](const Case& c, const Out& o) {
        Version v; v.g = o.asc ? c.want : c.want_tif; v.lyr = o.lyr; v.asc = o.asc; v.integral = c.integral; v.gdt = c.gdt;
        return v;
    };
    {
        Case c = make_case();
        bool ok = false;
        guarded("write-first", [&]() { ok = c.write(path); });
        sim::log("first write %s -> %d", c.what.c_str(), ok);
        // a write refused because of its third layer has written the first two
        for (auto& o : c.outs(path)) if (ok || simfs::exists(o.path)) ok_versions[o.path] = {add(c, o)};
        c.done();
    }
    int rounds = sim::range(1, 3);
    for (int k = 0; k < rounds; k++) {
        Case c = make_case();
        vector<Out> outs = c.outs(path);
        simfs::crash_taken = false;
        simfs::crash_at = (int64_t) simfs::mut_count + (int64_t) sim::skewed(60) + 1;
        simfs::crash_torn = (int) sim::draw(1001);
        if (sim::flip(1, 6)) simfs::arm({draw_rule({{simfs::WRITE, {ENOSPC, EIO}}, {simfs::RENAME, {EIO}}, {simfs::UNLINK, {EIO}}, {simfs::CLOSE, {EIO}}}, 10)});
        bound_gdal();
        bool ok = false;
        guarded("write-crash", [&]() { ok = c.write(path); });
        simfs::disarm(); simfs::on_op = nullptr;
        bool crashed = simfs::crash_taken;
        simfs::crash_at = -1;
        sim::log("overwrite %s -> %d killed %d at %s", c.what.c_str(), ok, crashed, simfs::crash_what.c_str());
        c.done();
        if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
        if (crashed) { simfs::restore(simfs::crash_disk); sim::mark_nontrivial(); sim::fault_fired("crash"); }
        for (auto& o : outs) {
            auto& vs = ok_versions[o.path];
            Version nv = add(c, o);
            if (ok && !crashed) vs = {nv};              // acknowledged
            Grid g;
            if (!simfs::exists(o.path) || !load(o.path, g)) {
                if (ok && !crashed) sim::violate("lost", "%s cannot be loaded after an acknowledged write", o.path.c_str());
                sim::log("%s refused", o.path.c_str());
                if (!crashed && !ok) {}                 // a failed write may leave nothing
                vs.clear(); continue;
            }
            string why_old = "no previous raster", why_new = against(g, nv);
            bool is_old = false;
            for (auto& v : vs) { string d = against(g, v); if (d.empty()) is_old = true; else why_old = d; }
            bool is_new = why_new.empty();
            if (!is_old && !is_new) sim::violate(o.asc ? "mixture:asc" : "mixture:tif", "%s loads after the kill (%s) as neither the previous raster (%s) nor the new one (%s)", o.path.c_str(), simfs::crash_what.c_str(), why_old.c_str(), why_new.c_str());
            sim::probe(is_new && !is_old ? "killed:new-visible" : "killed:old-visible");
            if (is_new && !is_old) vs = {nv};
        }
        check_escapes();
    }
    // the disk is healthy again: a complete write works and is exact whatever was left behind
    Case c = make_case();
    bool ok = false;
    guarded("write-last", [&]() { ok = c.write(path); });
    for (auto& o : c.outs(path)) {
        if (!ok) break;
        string d = o.asc ? diff_asc(o.path, c.want, o.lyr, c.integral) : diff_tif(o.path, c.want_tif, o.lyr, c.gdt);
        if (!d.empty()) sim::violate("not-recovered", "after the kill a complete write reported success but %s", d.c_str());
    }
    bool some = false; for (double d : c.want.v[0]) some |= d != c.want.nodata;
    if (!ok && some && (c.outs(path)[0].asc || c.legal)) sim::violate("not-recovered", "after the kill a write on the healthy disk is refused: %s", c.what.c_str());
    c.done();
}
