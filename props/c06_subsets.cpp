#include "props/subset_world.h"
const char* const kPropertyId = "C06";
const char* const kRule = "One run = a zone raster split by its values or by drawn groups (or a 1-3 layer raster loaded through a mask that has subsets; copies of these), then a history of rebuilding the subsets, assigning data to some of them, marking some unusable, and writing them one by one or combined (original, assigned or reclassified values; ASCII or GeoTIFF) over older files with write faults placed on single files, then reading every subset file back and recombining. Non-trivial: at least two subsets, or a fault fired.";
const char* const kRealComponents = "CCGL data_raster/utils, GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc), OpenMP runtime (scheduler under the tape)";
void prop_init() { raster_init(); }

static string stem_dir(const string& p) { return p.substr(0, p.rfind('/') + 1); }
static string core(const string& p) { size_t a = p.rfind('/') + 1; return p.substr(a, p.rfind('.') - a); }
static string ext(const string& p) { return p.substr(p.rfind('.')); }
template <class T> string file_diff(const string& p, const Grid& want, int l, const vector<char>* loose) {
    bool asc = p.size() > 4 && p.substr(p.size() - 4) == ".asc"; Grid w = want;
    if (loose) {    // take over what the file has in cells the property leaves open
        Grid f; string why; string text; GDALDataType t; bool ok = asc ? simfs::get(p, text) && asc_parse(text, f, why) : simfs::exists(p) && tif_read(p, f, t, why);
        if (ok && f.rows == w.rows && f.cols == w.cols) for (int i = 0; i < w.n(); i++) if ((*loose)[i]) w.v[l][i] = f.v[0][i];
    }
    return asc ? diff_asc(p, w, l, std::numeric_limits<T>::is_integer) : diff_tif(p, w, l, gdt_of<T>());
}
template <class T> void run() {
    typedef clsRasterData<T, int> R;
    World<T> w; if (!w.setup()) return;
    R*& rs = w.rs; int &zmin = w.zmin, &nz = w.nz; bool& indep = w.indep; bool fired_any = false;
    auto assign = [&](int k) { w.assign(k); }; auto gen_groups = [&]() { w.gen_groups(); };
    auto write = [&](bool origin, bool combined, const string& path, const std::map<vint, vector<double>>& recls, double df, bool faults) {
        auto e = w.expect(origin, combined, recls, df);
        vector<simfs::Rule> rl;
        if (faults) { rl.push_back(draw_rule({{simfs::WRITE, {28, 5, -1}}, {simfs::OPEN_W, {13, 28}}, {simfs::CLOSE, {5}}, {simfs::RENAME, {5}}, {simfs::WRITE | simfs::OPEN_W | simfs::RENAME, {28}}}, 40)); if (sim::flip(1, 3) && !w.subs.empty()) { auto it = w.subs.begin(); std::advance(it, sim::draw((uint32_t) w.subs.size())); rl[0].under = "/sim/out/" + std::to_string(it->first) + "_"; rl[0].nth = (int) sim::draw(4); } }
        simfs::Disk before = simfs::disk;
        bool ok = false;
        simfs::arm(rl); if (faults) bound_gdal();
        guarded(combined ? "write-combined" : "write-separate", [&]() {
            if (combined && !origin && recls.empty() && df == NODATA_VALUE && sim::flip(1, 2)) ok = rs->OutputToFile(path, false);
            else ok = rs->OutputSubsetToFile(origin, combined, path, recls, df);
        });
        bool fired = false; for (auto& r : simfs::rules) fired |= r.fired > 0;
        simfs::disarm(); simfs::on_op = nullptr;
        fired_any |= fired;
        sim::log("write %s %s recls %zu default %g -> %d (expected %d %s, fault %d)", origin ? "original" : "assigned", combined ? "combined" : "separate", recls.size(), df, ok, e.ok, e.why.c_str(), fired);
        if (ok && !e.ok) sim::violate("unreported-failure", "writing %s %s subsets reports success, but %s", combined ? "combined" : "separate", origin ? "original" : "assigned", e.why.c_str());
        if (!ok && e.ok && !fired) sim::violate("refused-healthy", "writing %s %s subsets failed on a healthy disk", combined ? "combined" : "separate", origin ? "original" : "assigned");
        auto name = [&](int id, int l, int lyrs) { return stem_dir(path) + std::to_string(id) + "_" + core(path) + (lyrs > 1 ? "_" + std::to_string(l + 1) : "") + ext(path); };
        auto check = [&](int id, const Grid& g, const vector<char>* loose) {
            for (int l = 0; l < g.lyrs; l++) {
                string p = name(id, l, g.lyrs), d = file_diff<T>(p, g, l, loose);
                if (d.empty()) continue;
                if (ok) sim::violate("wrong-file", "%s after a successful write of %s %s subsets", d.c_str(), combined ? "combined" : "separate", origin ? "original" : "assigned");
                string now, old; simfs::Disk cur = simfs::disk; bool hn = simfs::get(p, now); simfs::restore(before); bool ho = simfs::get(p, old); simfs::restore(cur);
                if (hn && !(ho && now == old)) sim::violate("spoilt-file", "%s after a failed write: neither the old nor the new file", d.c_str());
            }
        };
        if (ok || e.ok) {
            if (combined) check(0, e.all, &e.loose);
            else for (auto& kv : e.one) {
                vector<char> lo(kv.second.n(), 0); Sub& s = w.subs[kv.first];
                for (int f : s.full) lo[(size_t) (f / w.g.cols - s.r0) * kv.second.cols + f % w.g.cols - s.c0] = e.loose[f];
                check(kv.first, kv.second, &lo);
            }
        }
        if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
        check_escapes();
        return ok;
    };
    int steps = sim::range(1, 5);
    std::map<vint, vector<double>> none;
    for (int t = 0; t < steps; t++) {
        string path = sim::flip(1, 2) ? "/sim/out/z.asc" : "/sim/out/z.tif";
        switch (sim::weighted({4, 3, 3, 2, 2, 2, 1})) {
            case 0: write(true, false, path, none, NODATA_VALUE, sim::flip(1, 3)); break;
            case 1: assign(sim::flip(3, 4) ? sim::range(1, 3) : 0); write(false, sim::flip(1, 2), path, none, sim::flip(1, 5) ? 33 : NODATA_VALUE, sim::flip(1, 3)); break;
            case 2: {   // decompose, store, read each back, recombine
                if (!write(true, false, path, none, NODATA_VALUE, false)) break;
                for (auto& kv : rs->GetSubset()) {
                    Sub& s = w.subs[kv.first]; if (!s.usable) continue;
                    int n = (int) s.full.size(); vector<vector<T>> vals(w.g.lyrs, vector<T>(n));
                    for (int l = 0; l < w.g.lyrs; l++) {
                        string p = stem_dir(path) + std::to_string(kv.first) + "_" + core(path) + (w.g.lyrs > 1 ? "_" + std::to_string(l + 1) : "") + ext(path);
                        guarded("read-back", [&]() {
                            R* x = R::Init(p, false); if (!x) sim::violate("unreadable-subset", "%s cannot be loaded", p.c_str());
                            int len = 0; T* d = nullptr; x->GetRasterData(&len, &d);
                            for (int k = 0; k < n; k++) { if (kv.second->local_posidx_[k] >= len) sim::violate("short-subset", "%s holds %d cells", p.c_str(), len); vals[l][k] = d[kv.second->local_posidx_[k]]; }
                            delete x;
                        });
                    }
                    bool ok = false;
                    guarded("SetData", [&]() {
                        if (w.g.lyrs == 1) ok = kv.second->SetData(n, vals[0].data());
                        else { T** a = nullptr; utils_array::Initialize2DArray(n, w.g.lyrs, a, T(0)); for (int k = 0; k < n; k++) for (int l = 0; l < w.g.lyrs; l++) a[k][l] = vals[l][k]; ok = kv.second->Set2DData(n, w.g.lyrs, a); utils_array::Release2DArray(a); }
                    });
                    if (!ok) sim::violate("data-refused", "data for subset %d refused", kv.first);
                    s.lyrs = w.g.lyrs; s.has = true; s.data.assign(w.g.lyrs, vector<double>(n)); for (int l = 0; l < w.g.lyrs; l++) for (int k = 0; k < n; k++) { s.data[l][k] = (double) vals[l][k];
                        double o = w.g.v[l][s.full[k]]; if (!same_num(s.data[l][k], o) && !(ext(path) == ".asc" && six(s.data[l][k]) == six(o))) sim::violate("cell-changed", "cell %d layer %d of subset %d was %.17g, stored and read back %.17g", s.full[k], l + 1, kv.first, o, s.data[l][k]); }
                }
                write(false, true, path, none, NODATA_VALUE, false); break;
            }
            case 3: {   // reclassified output
                std::map<vint, vector<double>> rc; int k = sim::flip(2, 3) ? 1 : sim::range(1, 3); bool odd = sim::flip(1, 10);
                for (int z = zmin - 1; z < zmin + nz + 2; z++) if (sim::flip(2, 3)) { vector<double> v; for (int l = 0; l < k + (odd && z == zmin); l++) v.push_back(gen_value<T>()); rc[z] = v; }
                if (rc.empty()) rc[zmin] = vector<double>(k, 1);
                write(sim::flip(1, 2), sim::flip(1, 2), path, rc, sim::flip(1, 3) ? 33 : NODATA_VALUE, sim::flip(1, 4)); break;
            }
            case 4: {
                if (!w.own) { write(true, true, path, none, NODATA_VALUE, sim::flip(1, 4)); break; }
                if (sim::flip(1, 2)) { bool ok = false; gen_groups(); guarded("RebuildSubSet", [&]() { ok = rs->RebuildSubSet(w.groups); }); if (!ok) sim::violate("build-refused", "splitting again failed"); w.subs.clear(); w.check_positions("after splitting again"); sim::log("split again into %zu", w.subs.size()); }
                else write(true, true, path, none, NODATA_VALUE, sim::flip(1, 4));
                break;
            }
            case 5: if (w.subs.size() > 1) { auto it = w.subs.begin(); std::advance(it, sim::draw((uint32_t) w.subs.size())); it->second.usable = false; rs->GetSubset().at(it->first)->usable = false; sim::log("subset %d not usable", it->first); } break;
            default: if (indep) { guarded("copy", [&]() { R* c = new R(rs); delete rs; rs = c; }); w.check_positions("after copying"); }
        }
        string d = diff_grid(view(rs), w.g, false);
        if (!d.empty()) sim::violate("raster-changed", "the raster itself changed: %s", d.c_str());
    }
    if (fired_any) sim::mark_nontrivial();
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    switch (sim::draw(4)) { case 0: run<float>(); break; case 1: run<int>(); break; case 2: run<double>(); break; default: run<short>(); }
}
