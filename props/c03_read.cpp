#include "props/raster_model.h"
const char* const kPropertyId = "C03";
const char* const kRule = "One run = a stored raster (ASCII in several spellings or GeoTIFF in any cell type and strip/tile/compression layout), a reading type, a way of loading (constructor, Init, ReadFromFile, free functions; with or without mask and position calculation) and a sequence of read faults (I/O error, short reads, EINTR, refused open, failing seek/stat/close, transient or sticky) over 1-3 loads, the mask loaded under faults as well in some. Non-trivial: a fault fired.";
const char* const kRealComponents = "CCGL data_raster/utils, GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc), OpenMP runtime (scheduler under the tape)";
void prop_init() { raster_init(); }

static void arm_reads(int span, bool asc) {
    vector<simfs::Rule> rs;
    int n = (int) sim::weighted({0, 5, 2}) ;
    for (int i = 0; i < n; i++) {
        rs.push_back(draw_rule({{simfs::READ, {EIO}}, {simfs::READ, {-1}}, {simfs::READ, {EINTR}}, {simfs::READ, {EIO, -1}}, {simfs::OPEN_R, {EACCES, EMFILE, ENOENT, EINTR}}, {simfs::SEEK, {EIO}}, {simfs::STAT, {EIO, EACCES}}, {simfs::CLOSE, {EIO}}, {simfs::ACCESS, {EACCES}}, {simfs::REALPATH, {EIO}}}, span));
        if (rs.back().err == EINTR) rs.back().sticky = false;
        if (rs.back().ops == simfs::READ && rs.back().err == -1 && sim::flip(1, 3)) { rs.back().sticky = true; rs.back().nth = 0; }
    }
    simfs::arm(rs);
}

template <class T> void run() {
    typedef clsRasterData<T, int> R;
    bool asc = sim::flip(1, 2);
    static const GDALDataType ft[] = {GDT_Float32, GDT_Int32, GDT_Byte, GDT_Int16, GDT_UInt16, GDT_Float64, GDT_Int8, GDT_UInt32, GDT_UInt64, GDT_Int64};
    int k = (int) sim::draw(10);
    Grid g;
    switch (k) { case 0: g = gen_grid<float>(); break; case 1: g = gen_grid<int>(); break; case 2: g = gen_grid<unsigned char>(); break; case 3: g = gen_grid<short>(); break; case 4: g = gen_grid<unsigned short>(); break; case 5: g = gen_grid<double>(); break; case 6: g = gen_grid<signed char>(); break; case 7: g = gen_grid<unsigned>(); break; case 8: g = gen_grid<uint64_t>(); break; default: g = gen_grid<int64_t>(); }
    if (k >= 8 && std::fabs(g.nodata) > 9e15) { double o = g.nodata; g.nodata = k == 9 ? -9999 : 255; for (auto& x : g.v[0]) if (x == o) x = g.nodata; }   // read as a double
    if (sim::flip(1, 6)) { int rr = sim::range(20, 90), cc = sim::range(20, 90); Grid b = g; g.rows = rr; g.cols = cc; g.v.assign(1, vector<double>((size_t) g.n())); for (int i = 0; i < g.n(); i++) g.v[0][i] = b.v[0][i % b.n()]; }
    // must fit the reading type
    auto fits = [](double x) { return std::is_floating_point<T>::value || (x >= (double) std::numeric_limits<T>::min() && x <= (double) std::numeric_limits<T>::max() && std::fabs(x) < 9e15); };
    if (!fits(g.nodata)) { double o = g.nodata; g.nodata = 97; for (auto& x : g.v[0]) if (x == o) x = g.nodata; }
    for (auto& x : g.v[0]) if (!fits(x)) x = 7;
    string srs0; bool with_nd = true;
    simfs::mkdirs("/sim/in");
    string path = asc ? "/sim/in/a_1.asc" : "/sim/in/a_1.tif";
    if (asc) simfs::put(path, asc_text(g, 0, (int) sim::draw(16)));
    else {
        char** o = nullptr;
        switch (sim::draw(5)) { case 1: o = CSLSetNameValue(o, "TILED", "YES"); o = CSLSetNameValue(o, "BLOCKXSIZE", "16"); o = CSLSetNameValue(o, "BLOCKYSIZE", "16"); break; case 2: o = CSLSetNameValue(o, "COMPRESS", "LZW"); break; case 3: o = CSLSetNameValue(o, "COMPRESS", "DEFLATE"); break; case 4: o = CSLSetNameValue(o, "BLOCKYSIZE", "1"); break; }
        if (sim::flip(1, 8)) o = CSLSetNameValue(o, "ENDIANNESS", "BIG");
        if (sim::flip(1, 12)) o = CSLSetNameValue(o, "BIGTIFF", "YES");
        if (sim::flip(1, 8)) {                 // no no-data value: the default one of the type
            static const double dn[] = {-FLT_MAX, INT32_MIN, 255, -32768, 65535, -FLT_MAX, -128, 4294967295., 0, 0};
            double d = dn[k];
            if (k == 2) { d = -128; for (double x : g.v[0]) if (x > 127) d = 255; }
            bool same = d == dn[k]; for (double x : g.v[0]) same &= x != d;
            if (k < 8 && (same || k == 2) && fits(d)) { with_nd = false; g.nodata = d; }
        }
        int bands = sim::flip(1, 8) ? 2 : 1;
        const char* wkt = sim::flip(1, 4) ? "LOCAL_CS[\"grid of the basin\",UNIT[\"metre\",1]]" : nullptr;
        tif_put(path, g, ft[k], 0, with_nd, o, bands, wkt); CSLDestroy(o);
        GDALDatasetH ds = GDALOpen(path.c_str(), GA_ReadOnly); srs0 = GDALGetProjectionRef(ds); GDALClose(ds);
    }
    bool masked = sim::flip(2, 5);
    Grid mg; bool use_ext = sim::flip(1, 2), calc = sim::flip(1, 2);
    double deflt = sim::flip(1, 4) ? 3 : NODATA_VALUE;
    if (masked) { mg = gen_mask(g); simfs::put("/sim/in/mask.asc", asc_text(mg)); }
    Load want = model_load<T>({g}, masked ? &mg : nullptr, use_ext, deflt);
    Load wantm; if (masked) wantm = model_load<int>({mg}, nullptr, true, NODATA_VALUE);
    if (!with_nd) sim::probe("no-nodata-value");
    sim::log("%s %dx%d type %d reader %s masked %d ext %d calc %d legal %d", path.c_str(), g.rows, g.cols, k, typeid(T).name(), masked, use_ext, calc, want.ok);
    int loads = sim::range(1, 3);
    R* keep = nullptr; clsRasterData<int>* mk = nullptr;
    for (int t = 0; t < loads; t++) {
        bool faulty = t + 1 < loads || loads == 1;
        uint64_t f0 = simfs::fault_count; bool fired = false;
        auto begin = [&]() { if (faulty) { arm_reads(asc ? 8 : 25, asc); bound_gdal(); } };
        auto end = [&]() { simfs::disarm(); simfs::on_op = nullptr; if (simfs::fault_count != f0) { fired = true; sim::mark_nontrivial(); } };
        bool mask_early = !sim::flip(1, 3);
        if (!mask_early) begin();
        if (masked && !mk) {
            bool ok = false;
            guarded("load-mask", [&]() { mk = new clsRasterData<int>("/sim/in/mask.asc", sim::flip(1, 2)); ok = mk->ValidateRasterData(); });
            if (!ok) { delete mk; mk = nullptr; end(); if (!fired) sim::violate("refused-healthy:mask", "intact mask refused on a healthy disk"); continue; }
            string d = diff_load(view(mk), wantm, false);
            if (!d.empty()) sim::violate("wrong-cells:mask", "mask loaded as %s (fault fired %d)", d.c_str(), fired);
        }
        if (mask_early) begin();
        int how = (int) sim::draw(masked ? 4 : 5);
        bool ok = false; R* rs = nullptr; Grid fg;
        guarded("load", [&]() {
            switch (how) {
                case 0: rs = R::Init(path, calc, mk, use_ext, deflt); ok = rs != nullptr; break;
                case 1: rs = new R(path, calc, mk, use_ext, deflt); ok = rs->ValidateRasterData() || rs->GetCellNumber() == 0; break;   // no cell is valid
                case 2: rs = new R(); ok = rs->ReadFromFile(path, calc, mk, use_ext, deflt); break;
                case 3: rs = keep ? keep : new R(); keep = nullptr; ok = rs->ReadFromFile(path, calc, mk, use_ext, deflt); break;   // again on an object whose load failed
                default: {
                    STRDBL_MAP h; T* v = nullptr; RasterDataType it; string srs;
                    ok = asc ? ReadAscFile(path, h, v) : ReadRasterFileByGdal(path, h, v, it, srs);
                    if (ok) {
                        fg.rows = (int) h.at(HEADER_RS_NROWS); fg.cols = (int) h.at(HEADER_RS_NCOLS); fg.xll = h.at(HEADER_RS_XLL); fg.yll = h.at(HEADER_RS_YLL); fg.dx = h.at(HEADER_RS_CELLSIZE); fg.nodata = cast<T>(h.at(HEADER_RS_NODATA));
                        if ((int) h.at(HEADER_RS_CELLSNUM) != fg.n()) sim::violate("header", "CELLSNUM %g for %d cells", h.at(HEADER_RS_CELLSNUM), fg.n());
                        fg.v.assign(1, vector<double>(fg.n())); for (int i = 0; i < fg.n(); i++) fg.v[0][i] = (double) v[i];
                    }
                    if (ok && !asc && srs != srs0) sim::violate("header", "spatial reference '%.80s' instead of '%.80s'", srs.c_str(), srs0.c_str());
                    utils_array::Release1DArray(v);
                }
            }
        });
        end();
        sim::log("load %d how %d -> %d fired %d", t, how, ok, fired);
        if (ok) {
            if (!want.ok && how != 4) sim::violate("accepted-empty", "load reported success although no cell of the mask has a value");
            Load w = how == 4 ? model_load<T>({g}, nullptr, true, NODATA_VALUE) : want;
            string d = diff_load(how == 4 ? fg : view(rs), w, false);
            if (!d.empty()) sim::violate(fired ? "wrong-cells:fault" : "wrong-cells", "%s loaded successfully but %s", path.c_str(), d.c_str());
            if (rs && !masked && !asc && string(rs->GetSrsString()) != srs0) sim::violate("header", "spatial reference '%.80s' instead of '%.80s'", rs->GetSrsString().c_str(), srs0.c_str());
            if (rs) guarded("stats", [&]() {
                int n = 0; for (double x : want.g.v[0]) n += x != want.g.nodata;
                int got = rs->GetValidNumber();
                if (n && got != n) sim::violate("statistics", "%d valid cells reported, %d there", got, n);
            });
        } else if (!fired && want.ok) sim::violate("refused-healthy", "%s refused on a healthy disk", path.c_str());
                if (rs && !ok && (how == 2 || how == 3)) { if (rs->ValidateRasterData()) sim::violate("half-loaded", "failed load left a raster that reports itself valid"); delete keep; keep = rs; } else delete rs;
        if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
        check_escapes();
    }
    delete keep; delete mk;
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    switch (sim::draw(6)) { case 0: run<float>(); break; case 1: run<int>(); break; case 2: run<double>(); break; case 3: run<vint64_t>(); break; case 4: run<short>(); break; default: run<unsigned char>(); }
}
