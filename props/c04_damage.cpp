#include "props/raster_model.h"
const char* const kPropertyId = "C04";
const char* const kRule = "One run = an intact raster file written by CCGL or by an independent writer (ASCII or GeoTIFF, one or several layers), damaged 1-4 times in a row: cut at any byte, bytes flipped, lines dropped, doubled, swapped or edited, header values replaced by impossible ones, blocks zeroed, torn between an old and a new version, extended; loaded as raster, as mask or as a layer, then used (cells, statistics, positions, masking, copying), while another raster loaded from an intact file is watched. Non-trivial: the damaged file was opened as a raster.";
const char* const kRealComponents = "CCGL data_raster/utils, GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc), OpenMP runtime (scheduler under the tape)";
void prop_init() { raster_init(); }

static const char* const kBad[] = {"-1", "0", "2147483647", "99999999999999999999", "65536", "-2147483648", "nan", "inf", "-inf", "1e308", "abc", "3x", "0x10", "1.5", "", "1e-320", "4294967297", "+", "-", ".", "1e"};
static vector<string> lines_of(const string& s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static string join(const vector<string>& v) { string s; for (auto& l : v) s += l + "\n"; return s; }
static string damage(const string& in, bool asc, const string& other) {
    string s = in;
    if (s.empty()) return s;
    int k = (int) sim::draw(asc ? 12 : 8);
    sim::log("damage kind %d", k);
    switch (k) {
        case 0: s.resize(sim::draw((uint32_t) s.size())); break;
        case 1: for (int i = sim::range(1, 4); i; i--) s[sim::draw((uint32_t) s.size())] ^= (char) (1 << sim::draw(8)); break;
        case 2: { size_t a = sim::draw((uint32_t) s.size()), n = 1 + sim::draw(64); for (size_t i = a; i < s.size() && i < a + n; i++) s[i] = 0; } break;
        case 3: { size_t a = sim::draw((uint32_t) s.size()); s = other.substr(0, std::min(other.size(), a)) + (a < s.size() ? s.substr(a) : ""); } break;       // torn: new beginning, old rest
        case 4: { size_t a = sim::draw((uint32_t) s.size()), n = 1 + sim::draw(16); for (size_t i = a; i < s.size() && i < a + n; i++) s[i] = (char) sim::draw(256); } break;
        case 5: { size_t a = sim::draw((uint32_t) s.size()), n = 1 + sim::draw(32); s.erase(a, n); } break;
        case 6: s += other.substr(0, sim::draw((uint32_t) other.size() + 1)); break;
        case 7: if (!asc) {          // directory entries of the GeoTIFF: any 2/4 bytes of the directory set to odd values
            size_t ifd = s.size() >= 8 ? (unsigned char) s[4] | (unsigned char) s[5] << 8 | (unsigned char) s[6] << 16 : 8; if (ifd + 2 >= s.size()) ifd = 8;
            size_t a = std::min(s.size() - 1, ifd + 2 + sim::draw(20) * 12 + 2 * sim::draw(6)); static const uint32_t w[] = {0, 1, 2, 0xffff, 0xffffffff, 0x7fffffff, 5, 12, 3};
            uint32_t x = w[sim::draw(9)]; for (size_t i = 0; i < (sim::flip(1, 2) ? 2u : 4u) && a + i < s.size(); i++) s[a + i] = (char) (x >> (8 * i));
        } else s.insert(sim::draw((uint32_t) s.size()), string(1 + sim::draw(3), "9 -\n#e\0."[sim::draw(8)]));
        break;
        default: {
            vector<string> v = lines_of(s); if (v.empty()) break;
            size_t a = sim::flip(1, 2) ? sim::draw((uint32_t) std::min(v.size(), (size_t) 6)) : sim::draw((uint32_t) v.size());
            switch (k) {
                case 8: v.erase(v.begin() + (long) a); break;
                case 9: v.insert(v.begin() + (long) a, v[sim::draw((uint32_t) v.size())]); break;
                case 10: std::swap(v[a], v[sim::draw((uint32_t) v.size())]); break;
                default: { size_t sp = v[a].find_first_of(" \t"); v[a] = (sp == string::npos ? "" : v[a].substr(0, sp + 1)) + kBad[sim::draw(sizeof kBad / sizeof *kBad)]; }
            }
            s = join(v);
        }
    }
    return s;
}
// what a strict reader says: 0 intact grid, 1 must be refused, 2 debatable
static int judge_asc(const string& text, Grid& g, string& why) {
    string t; for (auto& l : lines_of(text)) { size_t a = l.find_first_not_of(" \t\r\n\v\f"); if (a != string::npos && l[a] == '#') continue; t += l + "\n"; }
    if (t.find('\0') != string::npos) { why = "holds NUL bytes"; return 2; }
    Grid q;
    // header: count how often each key occurs
    static const char* need[][2] = {{"NCOLS", ""}, {"NROWS", ""}, {"XLLCENTER", "XLLCORNER"}, {"YLLCENTER", "YLLCORNER"}, {"CELLSIZE", ""}};
    string up = t; for (auto& c : up) c = (char) toupper((unsigned char) c);
    for (auto& k : need) { bool there = up.find(k[0]) != string::npos || (*k[1] && up.find(k[1]) != string::npos); if (!there) { why = string("no ") + k[0]; return 1; } }
    if (asc_parse(t, q, why)) {
        if (!(q.cols > 0) || !(q.rows > 0) || !(q.dx > 0) || (double) q.cols * q.rows > 2e9) { why = "impossible header"; return 1; }
        if (!std::isfinite(q.dx) || !std::isfinite(q.xll) || !std::isfinite(q.yll)) { why = "odd header"; return 2; }
        g = q; return 0;
    }
    if (why.compare(0, 5, "holds") == 0 && q.v.empty()) {
        if (q.cols <= 0 || q.rows <= 0) return 1;
        size_t got = strtoull(why.c_str() + 6, nullptr, 10); if (got < (size_t) q.rows * q.cols) return 1;
    }
    return 2;
}
template <class R> void exercise(R* rs, const char* what) {
    typedef typename std::remove_pointer<decltype(rs->GetRasterDataPointer())>::type T;
    int rows = rs->GetRows(), cols = rs->GetCols(), n = rs->GetCellNumber(), L = rs->GetLayers();
    if (rows <= 0 || cols <= 0 || L <= 0 || n < 0 || (int64_t) n > (int64_t) rows * cols) sim::violate("inconsistent", "%s: %d rows, %d columns, %d cells, %d layers", what, rows, cols, n, L);
    if ((int64_t) rows * cols > 200000) { sim::probe("large-object"); return; }
    if (!(rs->GetCellWidth() > 0) && !std::isnan(rs->GetCellWidth()) && false) sim::violate("inconsistent", "%s: cell size %g", what, rs->GetCellWidth());
    if (!rs->GetRasterPositionIndexPointer() && n != 0 && n != rows * cols) sim::violate("inconsistent", "%s: %d cells stored for %d x %d", what, n, rows, cols);
    if ((int) rs->GetRasterHeader().at(HEADER_RS_CELLSNUM) != n) sim::violate("inconsistent", "%s: header announces %g cells, %d stored", what, rs->GetRasterHeader().at(HEADER_RS_CELLSNUM), n);
    double sum = 0;
    for (int l = 1; l <= L; l++) for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) sum += (double) rs->GetValue(r, c, l);
    for (int i = 0; i < n; i++) sum += (double) rs->GetValueByIndex(i);
    int cnt = 0, lyr = 0; T* one = nullptr; T** two = nullptr;
    if (rs->Is2DRaster()) { if (rs->Get2DRasterData(&cnt, &lyr, &two)) for (int i = 0; i < cnt; i++) for (int l = 0; l < lyr; l++) sum += (double) two[i][l]; }
    else if (rs->GetRasterData(&cnt, &one)) for (int i = 0; i < cnt; i++) sum += (double) one[i];
    if (n > 0) rs->GetStatistics("MEAN", 1);
    volatile double sink = sum; (void) sink;
}
template <class T> void run() {
    typedef clsRasterData<T, int> R;
    bool asc = sim::flip(2, 3);
    simfs::mkdirs("/sim/in");
    Grid g = gen_grid<T>(), h = gen_grid<T>(1, g.rows, g.cols); h.nodata = g.nodata;
    for (auto& v : g.v) for (auto& x : v) if (std::fabs(x) > 1e9) x = 5;
    string ext = asc ? "asc" : "tif";
    auto put = [&](const string& p, const Grid& q, string& d) {
        if (asc) simfs::put(p, asc_text(q, 0, (int) sim::draw(16)));
        else { char** o = nullptr; if (sim::flip(1, 3)) o = CSLSetNameValue(o, "COMPRESS", sim::flip(1, 2) ? "LZW" : "DEFLATE"); if (sim::flip(1, 4)) o = CSLSetNameValue(o, "BLOCKYSIZE", "1"); tif_put(p, q, gdt_of<T>(), 0, sim::flip(3, 4), o); CSLDestroy(o); }
        simfs::get(p, d);
    };
    string d, d2; string bad = "/sim/in/d_2." + ext;
    put(bad, g, d); put("/sim/in/h." + ext, h, d2);
    // another raster, to be left alone
    Grid k = gen_grid<T>(1, g.rows, g.cols); k.dx = g.dx; k.xll = g.xll; k.yll = g.yll; for (auto& v : k.v) for (auto& x : v) if (std::fabs(x) > 1e9) x = 5;
    simfs::put("/sim/in/d_1.asc", asc_text(k));
    R* other = nullptr; guarded("load", [&]() { other = R::Init("/sim/in/d_1.asc"); });
    if (!other) sim::violate("refused-healthy", "intact raster refused");
    Grid before = view(other);
    Grid mg = gen_mask(g); simfs::put("/sim/in/mask.asc", asc_text(mg));
    clsRasterData<int>* mk = nullptr; guarded("load", [&]() { mk = clsRasterData<int>::Init("/sim/in/mask.asc"); });
    int rounds = sim::range(1, 4); string cur = d;
    for (int t = 0; t < rounds; t++) {
        cur = damage(cur, asc, d2);
        if (cur == d) continue;
        simfs::rm(bad); simfs::put(bad, cur);
        Grid jg; string why; int verdict = asc ? judge_asc(cur, jg, why) : 2;
        bound_gdal(50000);
        if (!asc) {   // sizes only bounded by memory are not explored
            GDALDatasetH ds = GDALOpen(bad.c_str(), GA_ReadOnly);
            if (ds) { double n = (double) GDALGetRasterXSize(ds) * GDALGetRasterYSize(ds); GDALClose(ds); if (n > 4e6) { sim::give_up("given-up:huge-geotiff"); } sim::mark_nontrivial(); }
        } else sim::mark_nontrivial();
        int use = (int) sim::draw(5);
        bool ok = false; R* rs = nullptr;
        if (asc) sim::log("text: %s", cur.substr(0,400).c_str());
        sim::log("round %d use %d verdict %d %s (%zu bytes)", t, use, verdict, why.c_str(), cur.size());
        guarded("load-damaged", [&]() {
            switch (use) {
                case 0: rs = R::Init(bad); ok = rs != nullptr; break;
                case 1: rs = new R(bad, true); ok = rs->ValidateRasterData() || rs->GetCellNumber() == 0; break;
                case 2: rs = R::Init(bad, sim::flip(1, 2), mk, sim::flip(1, 2)); if (rs) exercise(rs, "masked"); delete rs; rs = nullptr; break;
                case 3: { vector<string> fs = {"/sim/in/d_1.asc", bad}; rs = R::Init(fs, sim::flip(1, 2)); if (rs && verdict == 1) sim::violate("trusted-damage", "layers accepted although the second file %s", why.c_str()); if (rs) exercise(rs, "layers"); delete rs; rs = nullptr; break; }
                default: {       // as the mask of an intact raster
                    auto* m = clsRasterData<int>::Init(bad); 
                    if (m) { if (verdict == 1) sim::violate("trusted-damage", "mask accepted although it %s", why.c_str()); exercise(m, "mask");
                        if ((int64_t) m->GetRows() * m->GetCols() <= 200000 && m->GetNoDataValue() == m->GetNoDataValue()) { rs = R::Init("/sim/in/d_1.asc", sim::flip(1, 2), m, sim::flip(1, 2)); if (rs) exercise(rs, "masked by damaged"); delete rs; rs = nullptr; } }
                    delete m;
                }
            }
        });
        simfs::on_op = nullptr;
        if (ok) {
            if (verdict == 1) sim::violate("trusted-damage", "accepted although it %s", why.c_str());
            guarded("use-damaged", [&]() { exercise(rs, "loaded"); });
            if (verdict == 0 && use == 0 && std::numeric_limits<T>::is_integer == false) {
                bool sane = true; for (double x : jg.v[0]) if (std::fabs(x) > 1e30) sane = false;
                if (sane) { string e = diff_grid(view(rs), model_load<T>({jg}, nullptr, true, NODATA_VALUE).g, false); if (!e.empty()) sim::violate("wrong-cells", "a readable grid was loaded as %s", e.c_str()); }
            }
            guarded("copy-damaged", [&]() { R* c = new R(rs); exercise(c, "copy"); delete c; });
        }
        delete rs;
        string e = diff_grid(view(other), before, false);
        if (!e.empty()) sim::violate("other-object", "a raster loaded from an intact file changed: %s", e.c_str());
        guarded("load", [&]() { R* again = R::Init("/sim/in/d_1.asc"); string f = again ? diff_grid(view(again), before, false) : "refused"; if (!f.empty()) sim::violate("other-object", "an intact file is read differently afterwards: %s", f.c_str()); delete again; });
        if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
        check_escapes();
    }
    delete other; delete mk;
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    switch (sim::draw(3)) { case 0: run<float>(); break; case 1: run<int>(); break; default: run<double>(); }
}
