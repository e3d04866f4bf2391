#include "props/raster_model.h"
const char* const kPropertyId = "C05";
const char* const kRule = "One run = a list of 2-5 layer files (ASCII and GeoTIFF mixed, same or shifted/smaller extents, own no-data values), optionally a mask, and up to two impairments: layers missing, truncated, damaged, being a directory, or read faults placed on any layer's file; loaded through the constructor, Init or ReadFromFiles, then loaded again healthy (same object or a new one). Non-trivial: a layer was impaired or a fault fired.";
const char* const kRealComponents = "CCGL data_raster/utils, GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc), OpenMP runtime (scheduler under the tape)";
void prop_init() { raster_init(); }

template <class T> void run() {
    typedef clsRasterData<T, int> R;
    int L = sim::range(2, 5);
    bool masked = sim::flip(2, 5), calc = sim::flip(1, 2), use_ext = sim::flip(1, 2);
    double deflt = sim::flip(1, 5) ? 3 : NODATA_VALUE;
    vector<Grid> g; vector<string> fs;
    Grid base = gen_grid<T>();
    simfs::mkdirs("/sim/in");
    for (int l = 0; l < L; l++) {
        Grid x = l == 0 ? base : gen_grid<T>(1, base.rows, base.cols);
        if (l) {
            if (sim::flip(1, 5)) x = gen_grid<T>();                            // another extent
            x.dx = base.dx; x.xll = base.xll; x.yll = base.yll;
            if (sim::flip(1, 5)) { x.xll += sim::range(-2, 2) * x.dx; x.yll += sim::range(-2, 2) * x.dx; }
            if (sim::flip(1, 2)) { for (auto& v : x.v[0]) if (v == x.nodata) v = base.nodata; x.nodata = base.nodata; }
        }
        bool asc = sim::flip(1, 2);
        fs.push_back("/sim/in/lyr_" + std::to_string(l + 1) + (asc ? ".asc" : ".tif"));
        if (asc) simfs::put(fs.back(), asc_text(x, 0, (int) sim::draw(16))); else tif_put(fs.back(), x, gdt_of<T>());
        g.push_back(x);
    }
    Grid mg; clsRasterData<int>* mk = nullptr;
    if (masked) {
        mg = gen_mask(base); simfs::put("/sim/in/mask.asc", asc_text(mg));
        guarded("load-mask", [&]() { mk = clsRasterData<int>::Init("/sim/in/mask.asc", sim::flip(1, 2)); });
        if (!mk) sim::violate("refused-healthy:mask", "intact mask refused");
    }
    Load want = model_load<T>(g, masked ? &mg : nullptr, use_ext, deflt);
    bool any = false; for (double v : want.g.v[0]) any |= v != want.g.nodata;
    sim::log("%d layers %dx%d masked %d ext %d calc %d legal %d", L, base.rows, base.cols, masked, use_ext, calc, want.ok);
    R* rs = nullptr; bool held = false;
    auto load = [&](int how) {
        bool ok = false;
        guarded("load", [&]() {
            switch (how) {
                case 0: delete rs; held = false; rs = R::Init(fs, calc, mk, use_ext, deflt); ok = rs != nullptr; break;
                case 1: delete rs; held = false; rs = new R(fs, calc, mk, use_ext, deflt); ok = rs->ValidateRasterData(); break;
                case 2: delete rs; held = false; rs = new R(sim::flip(1, 2)); ok = rs->ReadFromFiles(fs, calc, mk, use_ext, deflt); break;
                default: if (!rs) rs = new R(); ok = rs->ReadFromFiles(fs, calc, mk, use_ext, deflt);      // an object used before
            }
        });
        if (!ok && rs && rs->ValidateRasterData()) {       // refused before anything was touched?
            string d = held ? diff_load(view(rs), want, false) : "it never held one";
            if (!d.empty()) sim::violate("half-loaded", "failed load left a raster that reports itself valid: %s", d.c_str());
        } else held = ok;
        return ok;
    };
    int rounds = sim::range(1, 3);
    for (int t = 0; t < rounds; t++) {
        simfs::Disk good = simfs::disk;
        bool impaired = false;
        vector<simfs::Rule> rules;
        if (t + 1 < rounds || rounds == 1) for (int k = (int) sim::weighted({1, 5, 2}); k > 0; k--) {
            int l = (int) sim::draw((uint32_t) L); string d; bool asc = fs[l].back() == (char) 99;
            switch (sim::draw(5)) {
                case 0: simfs::rm(fs[l]); impaired = true; break;
                case 1: if (simfs::get(fs[l], d)) { string whole = d; d.resize(asc ? d.size() - std::min(d.size(), (size_t) 1 + sim::draw(40)) : sim::draw((uint32_t) std::min(d.size(), (size_t) 120))); simfs::rm(fs[l]); simfs::put(fs[l], d);
                          Grid q; string why; if (asc ? !asc_parse(d, q, why) : true) impaired = true; else { simfs::rm(fs[l]); simfs::put(fs[l], whole); } } break;
                case 2: simfs::rm(fs[l]); simfs::put(fs[l], sim::flip(1, 2) ? "" : "not a raster at all\n1 2 3\n"); impaired = true; break;
                case 3: simfs::rm(fs[l]); simfs::mkdirs(fs[l]); impaired = true; break;
                default: { simfs::Rule r = draw_rule({{simfs::READ, {EIO}}, {simfs::READ, {-1}}, {simfs::OPEN_R, {EACCES, EMFILE, ENOENT}}, {simfs::STAT, {EIO}}, {simfs::ACCESS, {EACCES}}, {simfs::CLOSE, {EIO}}}, asc ? 3 : 12); r.under = fs[l]; rules.push_back(r); }
            }
        }
        uint64_t f0 = simfs::fault_count;
        simfs::arm(rules); if (!rules.empty()) bound_gdal();
        int how = (int) sim::draw(4);
        bool ok = load(how);
        simfs::disarm(); simfs::on_op = nullptr;
        bool fired = simfs::fault_count != f0;
        if (fired || impaired) sim::mark_nontrivial();
        sim::log("round %d how %d impaired %d -> %d fired %d", t, how, impaired, ok, fired);
        if (ok) {
            if (impaired) sim::violate("partial-success", "load of %d layers reported success although one of the files is missing or damaged", L);
            if (!want.ok) sim::violate("accepted-empty", "load reported success although no cell of the mask has a value");
            string d = diff_load(view(rs), want, false);
            if (!d.empty()) sim::violate(fired ? "wrong-cells:fault" : "wrong-cells", "%s", d.c_str());
            if (!rs->Is2DRaster()) sim::violate("wrong-kind", "%d layers loaded, but not a 2D raster", L);
            // counts and bulk access agree with the cells
            int n = 0, ly = 0; T** p = nullptr;
            if (!rs->Get2DRasterData(&n, &ly, &p) || ly != L || n != rs->GetCellNumber() || (int) rs->GetRasterHeader().at(HEADER_RS_LAYERS) != L) sim::violate("counts", "bulk access reports %d cells, %d layers; header %g layers", n, ly, rs->GetRasterHeader().at(HEADER_RS_LAYERS));
            Grid v = view(rs);
            for (int i = 0; i < n; i++) for (int r = 0, l = 0; l < L && !r; l++) {
                int idx = rs->GetRasterPositionIndexPointer() ? rs->GetRasterPositionIndexPointer()[i] : i;
                if ((double) p[i][l] != v.v[l][idx]) sim::violate("misaligned", "stored cell %d layer %d is %g, by position %g", i, l + 1, (double) p[i][l], v.v[l][idx]);
            }
        } else if (!fired && !impaired && want.ok && any) sim::violate("refused-healthy", "%d intact layers refused on a healthy disk", L);
        simfs::restore(good);
        if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
        check_escapes();
    }
    delete rs; delete mk;
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    switch (sim::draw(4)) { case 0: run<float>(); break; case 1: run<int>(); break; case 2: run<double>(); break; default: run<short>(); }
}
