// A raster split into subsets, and the reference for what its subsets hold and give when written.
#ifndef PROPS_SUBSET_WORLD_H
#define PROPS_SUBSET_WORLD_H
#include "props/raster_model.h"
struct Sub { bool usable = true; int lyrs = -1; bool has = false; vector<vector<double>> data; vector<int> full; int r0, r1, c0, c1; };

template <class T> struct World {
    typedef clsRasterData<T, int> R;
    R* rs = nullptr; clsRasterData<int>* mk = nullptr;
    Grid g;                         // what the raster holds
    vector<int> zone;               // zone value of each cell; 0x7fffffff: none
    bool own = true;
    double deflt;
    std::map<int, Sub> subs;
    std::map<int, int> groups;
    ~World() { delete rs; delete mk; }

    int group_of(int z) { auto it = groups.find(z); return it == groups.end() ? z : it->second; }
    void check_positions(const char* when) {
        auto& real = rs->GetSubset();
        vector<int> seen(g.n(), 0);
        std::map<int, int> want;    // group -> valid cells
        for (int i = 0; i < g.n(); i++) if (g.v[0][i] != g.nodata && zone[i] != 0x7fffffff) want[group_of(zone[i])]++;
        int* idx = rs->GetRasterPositionIndexPointer();
        std::map<int, Sub> fresh;
        for (auto& kv : real) {
            auto* s = kv.second;
            if (s->n_cells <= 0) sim::violate("empty-subset", "%s: subset %d has %d cells", when, kv.first, s->n_cells);
            if (s->g_srow < 0 || s->g_scol < 0 || s->g_erow >= g.rows || s->g_ecol >= g.cols || s->g_srow > s->g_erow || s->g_scol > s->g_ecol) sim::violate("subset-extent", "%s: subset %d covers rows %d-%d, columns %d-%d of a %dx%d raster", when, kv.first, s->g_srow, s->g_erow, s->g_scol, s->g_ecol, g.rows, g.cols);
            Sub f; auto old = subs.find(kv.first); if (old != subs.end()) f = old->second;
            f.full.clear(); f.r0 = s->g_srow; f.r1 = s->g_erow; f.c0 = s->g_scol; f.c1 = s->g_ecol;
            int nc = s->g_ecol - s->g_scol + 1;
            for (int k = 0; k < s->n_cells; k++) {
                int gi = s->global_[k];
                if (gi < 0 || gi >= rs->GetCellNumber()) sim::violate("subset-cell", "%s: subset %d cell %d refers to cell %d of %d", when, kv.first, k, gi, rs->GetCellNumber());
                int full = idx ? idx[gi] : gi;
                if (full < 0 || full >= g.n()) sim::violate("subset-cell", "%s: subset %d cell %d lies at %d of %d", when, kv.first, k, full, g.n());
                int r = full / g.cols, c = full % g.cols;
                if (r < s->g_srow || r > s->g_erow || c < s->g_scol || c > s->g_ecol) sim::violate("outside-extent", "%s: subset %d cell at row %d column %d is outside its extent", when, kv.first, r, c);
                if (s->local_pos_[k][0] != r - s->g_srow || s->local_pos_[k][1] != c - s->g_scol || s->local_posidx_[k] != (r - s->g_srow) * nc + c - s->g_scol) sim::violate("local-position", "%s: subset %d cell at row %d column %d has local position %d %d (%d)", when, kv.first, r, c, s->local_pos_[k][0], s->local_pos_[k][1], s->local_posidx_[k]);
                if (seen[full]++) sim::violate("cell-twice", "%s: cell at row %d column %d belongs to more than one subset", when, r, c);
                if (zone[full] == 0x7fffffff || group_of(zone[full]) != kv.first) sim::violate("wrong-subset", "%s: cell at row %d column %d of zone %d is in subset %d", when, r, c, zone[full], kv.first);
                f.full.push_back(full);
                if (g.v[0][full] != g.nodata) want[kv.first]--;
            }
            fresh[kv.first] = f;
        }
        for (auto& kv : want) if (kv.second > 0) sim::violate("cell-lost", "%s: %d valid cells of group %d are in no subset", when, kv.second, kv.first);
        subs = fresh;
    }
    // value written for a cell, or "not defined"
    struct Out { bool ok = true; string why; int lyrs = 1; std::map<int, Grid> one; Grid all; vector<char> loose; };
    Out expect(bool origin, bool combined, const std::map<vint, vector<double>>& recls, double defarg) {
        Out o; double nd = g.nodata;
        double df = defarg == NODATA_VALUE ? deflt : defarg;
        if (subs.empty()) { o.ok = false; o.why = "there are no subsets"; }
        int lr = -1;
        for (auto& kv : recls) { if (lr < 0) lr = (int) kv.second.size(); else if (lr != (int) kv.second.size()) { o.ok = false; o.why = "reclassification with different layer counts"; } }
        int ls = -1;
        if (combined) {
            for (auto& kv : subs) { if (!kv.second.usable) continue; if (!origin && recls.empty() && !kv.second.has) { o.ok = false; o.why = "subset without data"; }
                if (!origin) { if (ls < 0) ls = kv.second.lyrs; else if (ls != kv.second.lyrs) { o.ok = false; o.why = "subsets with different layer counts"; } } }
            o.lyrs = origin ? (lr > 0 ? lr : g.lyrs) : ls < 0 ? lr : ls;
            if (o.lyrs < 1) { o.ok = false; o.why = "no layer count"; }
            o.all = g; o.all.lyrs = std::max(1, o.lyrs); o.all.v.assign(o.all.lyrs, vector<double>(g.n(), nd));
        }
        o.loose.assign(g.n(), 0);
        for (auto& kv : subs) {
            Sub& s = kv.second;
            int L = combined ? o.all.lyrs : origin ? (lr > 0 ? lr : g.lyrs) : s.lyrs < 0 ? lr : s.lyrs;
            if (!combined) {
                if (!s.usable) continue;
                if (L < 1) { o.ok = false; o.why = "no layer count"; continue; }
                if (!origin && recls.empty() && !s.has) { o.ok = false; o.why = "subset without data"; continue; }
            }
            Grid sg = g; sg.rows = s.r1 - s.r0 + 1; sg.cols = s.c1 - s.c0 + 1; sg.xll = g.xll + s.c0 * g.dx; sg.yll = g.yll + (g.rows - 1 - s.r1) * g.dx; sg.lyrs = L; sg.v.assign(L, vector<double>(sg.n(), nd));
            for (size_t k = 0; k < s.full.size(); k++) for (int l = 0; l < L; l++) {
                int f = s.full[k]; double v;
                if (combined && !s.usable && df == nd) continue;
                if (!recls.empty()) {
                    int key = origin ? (int) g.v[std::min(l, g.lyrs - 1)][f] : kv.first;
                    if (origin && (g.lyrs > 1 && l >= g.lyrs)) o.loose[f] = 1;     // no such layer: which value selects the class is not defined
                    if (origin && g.v[0][f] == nd) o.loose[f] = 1;                 // no-data cell: no-data or the default
                    auto it = recls.find(key); v = it != recls.end() && (int) it->second.size() > l ? it->second[l] : df;
                    v = cast<T>(v);
                } else if (combined && !s.usable) v = cast<T>(df);
                else if (origin) v = g.v[l][f];
                else v = l < (int) s.data.size() ? cast<T>(s.data[l][k]) : nd;
                if (combined) o.all.v[l][f] = v;
                else sg.v[l][(size_t) (f / g.cols - s.r0) * sg.cols + f % g.cols - s.c0] = v;
            }
            o.one[kv.first] = sg;
        }
        return o;
    }
    int L = 1, nz = 1, zmin = 0; bool indep = true;
    void gen_groups() { groups.clear(); if (sim::flip(1, 2)) for (int z = zmin; z < zmin + nz; z++) if (sim::flip(3, 4)) groups[z] = sim::range(-1, 4); }
    // false: the load through a mask was refused
    bool setup() {
        simfs::mkdirs("/sim/in"); simfs::mkdirs("/sim/out");
        own = sim::flip(1, 2);
        L = (int) sim::weighted({4, 2, 1}) + 1; bool two = L > 1 || sim::flip(1, 8);
        bool calc = sim::flip(1, 2), use_ext = sim::flip(1, 2);
        double defarg = sim::flip(1, 5) ? 77 : NODATA_VALUE;
        Grid base = gen_grid<T>(L);
        nz = sim::range(1, 5); zmin = std::is_signed<T>::value ? sim::range(-2, 1) : sim::range(0, 1);
        gen_groups();
        STRING_MAP opts; opts["SRS"] = "";
        if (own) {
            for (int i = 0; i < base.n(); i++) if (base.v[0][i] != base.nodata) { double z = zmin + (double) sim::draw((uint32_t) nz); if (z == base.nodata) z += nz; if (!std::numeric_limits<T>::is_integer && sim::flip(1, 8)) z += .25; base.v[0][i] = cast<T>(z); }
            if ((double) base.v[0][0] == base.nodata && std::count(base.v[0].begin(), base.v[0].end(), base.nodata) == base.n()) base.v[0][0] = cast<T>(zmin == base.nodata ? zmin + 1 : zmin);
            guarded("construct", [&]() {
                if (two) rs = new R(to_array2d<T>(base), base.cols, base.rows, L, (T) base.nodata, base.dx, base.xll, base.yll, opts);
                else rs = new R(to_array<T>(base), base.cols, base.rows, (T) base.nodata, base.dx, base.xll, base.yll, opts);
                if (calc) rs->SetCalcPositions();
            });
            for (int i = 0; i < base.n(); i++) if (base.v[0][i] == base.nodata) for (int l = 1; l < L; l++) base.v[l][i] = base.nodata;   // positions are those of the first layer's valid cells
            g = base; zone.assign(base.n(), 0x7fffffff);
            for (int i = 0; i < base.n(); i++) if (base.v[0][i] != base.nodata) zone[i] = (int) base.v[0][i];
            bool ok = false; guarded("BuildSubSet", [&]() { ok = rs->BuildSubSet(groups); });
            if (!ok) sim::violate("build-refused", "splitting a raster with valid cells failed");
            deflt = rs->GetDefaultValue();
        } else {
            Grid m = gen_mask(base); m.nodata = -9999;
            for (auto& v : m.v[0]) if (v != m.nodata) v = zmin + (double) sim::draw((uint32_t) nz);
            simfs::put("/sim/in/m.asc", asc_text(m));
            vector<string> fs; vector<Grid> ly;
            for (int l = 0; l < L; l++) { bool asc = sim::flip(1, 2); Grid x = base; x.lyrs = 1; x.v = {base.v[l]}; fs.push_back("/sim/in/d_" + std::to_string(l + 1) + (asc ? ".asc" : ".tif")); if (asc) simfs::put(fs.back(), asc_text(x)); else tif_put(fs.back(), x, gdt_of<T>()); ly.push_back(x); }
            bool ok = false, with_data = sim::flip(1, 4);
            guarded("load-mask", [&]() { mk = clsRasterData<int>::Init("/sim/in/m.asc", sim::flip(1, 2)); ok = mk && mk->BuildSubSet(groups); });
            if (!ok) sim::violate("build-refused", "splitting a mask with valid cells failed");
            if (with_data) for (auto& kv : mk->GetSubset()) {      // the mask's own subset data must not leak into other rasters
                int n = kv.second->n_cells;
                if (sim::flip(1, 2)) { vector<int> d(n, 5); kv.second->SetData(n, d.data()); }
                else { int k = sim::range(1, 4); int** d = nullptr; utils_array::Initialize2DArray(n, k, d, 6); kv.second->Set2DData(n, k, d); utils_array::Release2DArray(d); }
            }
            Load ld = model_load<T>(ly, &m, use_ext, defarg);
            ok = false;
            guarded("load", [&]() { rs = new R(two); ok = L == 1 && !two ? rs->ReadFromFile(fs[0], calc, mk, use_ext, defarg, opts) : rs->ReadFromFiles(fs, calc, mk, use_ext, defarg, opts); });
            if (!ok) return false;
            g = view(rs); string d = diff_load(g, ld, true);
            if (!d.empty()) sim::violate("wrong-load", "raster loaded through a mask with subsets: %s", d.c_str());
            zone.assign(g.n(), 0x7fffffff);
            for (int r = 0; r < g.rows; r++) for (int c = 0; c < g.cols; c++) { double z = m.at(r + ld.srow, c + ld.scol); if (z != m.nodata) zone[(size_t) r * g.cols + c] = (int) z; }
            deflt = rs->GetDefaultValue();
        }
        indep = own;
        if (sim::flip(1, 5)) { guarded("copy", [&]() { R* c = new R(rs); delete rs; rs = c; indep = true; }); if (indep && sim::flip(1, 2)) { delete mk; mk = nullptr; } sim::log("continues with a copy"); }
        sim::log("%dx%d layers %d own %d calc %d groups %zu", g.rows, g.cols, L, own, calc, groups.size());
        check_positions("after the split");
        for (auto& kv : subs) kv.second.lyrs = own ? -1 : L;
        // subsets of a raster loaded through a mask may carry what the mask's subsets held, if the layer counts agree
        for (auto& kv : rs->GetSubset()) { Sub& s = subs[kv.first]; s.lyrs = kv.second->n_lyrs; s.has = kv.second->data_ || kv.second->data2d_;
            if (s.has) { s.data.assign(s.lyrs, vector<double>(s.full.size(), 0)); for (size_t k = 0; k < s.full.size(); k++) for (int l = 0; l < s.lyrs; l++) s.data[l][k] = kv.second->data2d_ ? kv.second->data2d_[k][l] : kv.second->data_[k]; if (s.lyrs > 1 && !kv.second->data2d_) sim::violate("subset-layers", "subset %d of %d layers has one-layer data", kv.first, s.lyrs); } }
        if (subs.size() > 1) sim::mark_nontrivial();
        return true;
    }
    void assign(int lyrs) {
        for (auto& kv : rs->GetSubset()) {
            Sub& s = subs[kv.first];
            int n = (int) s.full.size(), k = lyrs ? lyrs : sim::range(1, 3);
            Grid d; d.rows = 1; d.cols = n; d.lyrs = k; d.v.assign(k, vector<double>(n)); for (auto& l : d.v) for (auto& x : l) x = gen_value<T>();
            bool ok = false;
            guarded("SetData", [&]() {
                if (k == 1 && sim::flip(3, 4)) { if (sim::flip(1, 6)) { T* a = to_array<T>(d); if (kv.second->SetData(n + 1, a)) sim::violate("wrong-count-accepted", "data of another cell count accepted"); delete[] a; } T* a = to_array<T>(d); ok = kv.second->SetData(n, a); delete[] a; }
                else { T** a = to_array2d<T>(d); ok = kv.second->Set2DData(n, k, a); utils_array::Release2DArray(a); }
            });
            if (!ok) sim::violate("data-refused", "data for subset %d refused", kv.first);
            s.lyrs = k; s.has = true; s.data = d.v; s.usable = true;
        }
    }
};
#endif
