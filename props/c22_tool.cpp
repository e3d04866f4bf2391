#include "props/mongo_raster.h"
#include "props/subset_world.h"
const char* const kPropertyId = "C22";
const char* const kRule = "One run = one invocation of mask_rasterio's main with a drawn mode (mask, decompose, both, combine), drawn inputs (single or several layers, ASCII, GeoTIFF or GridFS), mask, default and no-data values, output types, reclassification, threads, as arguments, as a configuration file, or mixed, over a disk and a database that may hold older outputs, with disk or database faults, missing or damaged inputs, unwritable outputs, illegal arguments or arbitrarily mutated argument lists. "
    "Exit status zero -> every output asked for holds the reference's cells; a fault-free, possible request exits zero, an impossible one does not; no crash. Non-trivial: a fault fired, something was sabotaged, or subsets were written.";
const char* const kRealComponents = "CCGL apps/mask_rasterio, data_raster, db_mongoc and utils, GDAL 3.8 GTiff driver and libtiff, libmongoc and libbson 1.26";
const char* const kStubComponents = "kernel file system (simulated disk below libc), network and MongoDB server (in-process simulation), OpenMP runtime (scheduler under the tape)";
extern int app_main(int argc, const char** argv);
void prop_init() { mongo_init(); }

enum Mode { MASKM, DECM, MASKDECM, COMM };
static const char* const kModes[] = {"MASK", "DEC", "MASK&DEC", "COM"};
static const int kOutTypes[] = {0, 1, 2, 3, 4, 5, 6, 7};      // index into kTypes/kGdts below
static const char* const kTypeNames[] = {"uint8", "int8", "uint16", "int16", "uint32", "int32", "float", "double"};
static const RasterDataType kTypes[] = {RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32, RDT_Int32, RDT_Float, RDT_Double};
static const GDALDataType kGdts[] = {GDT_Byte, GDT_Int8, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_Float32, GDT_Float64};
static const DbType* db_type(int k) { for (auto& t : kDbTypes) if (!strcasecmp(t.name, kTypeNames[k])) return &t; sim::harness_error("no type %d", k); return nullptr; }

struct Zone { vector<int> full; int r0 = 1 << 20, r1 = -1, c0 = 1 << 20, c1 = -1; };
struct Item {
    vector<string> in; vector<Grid> ly; string out, ext; bool asc = false;
    double df = NODATA_VALUE, nd = 0; bool upd = false; int type = -1;
    std::map<vint, vector<double>> recls;
    std::set<int> given;              // COM: zones with an input
    bool out_named = true;
};
struct Exp { string path; int id = -1; Grid g; int lyr = 0; vector<char> loose; vector<int> cells; std::shared_ptr<Exp> alt; };   // alt: the same with the smaller extent of the valid cells; cells: what a valid-only version may hold

static string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static string dir_of(const string& p) { return p.substr(0, p.rfind('/') + 1); }
static string core_of(const string& p) { size_t a = p.rfind('/') + 1; return p.substr(a, p.rfind('.') - a); }
static string recls_text(const std::map<vint, vector<double>>& m) {
    string s; for (auto& kv : m) { if (!s.empty()) s += ","; s += std::to_string((long) kv.first) + ":"; for (size_t i = 0; i < kv.second.size(); i++) s += (i ? "|" : "") + num(kv.second[i]); } return s;
}
struct Run {
    Mode mode = MASKM; bool has_mask = false, mask_gfs = false, mongo = false, in_gfs = false, out_gfs = false, inc = true, fmts_given = false;
    Grid mask; string mask_path; vector<Item> items; int thread = 0, gtype = -1;
    vector<Exp> exps; int verdict = 1;     // 1: has to succeed, 0: has to fail, 2: open
    void worse(int v) { if (v == 0) verdict = 0; else if (v == 2 && verdict == 1) verdict = 2; }

    Grid small_grid(int lyrs) {            // cells usable as zones and classes
        Grid g = gen_grid<float>(lyrs); int n = sim::range(1, 4);
        for (auto& l : g.v) for (auto& x : l) if (x != g.nodata) x = 1 + sim::draw((uint32_t) n);
        return g;
    }
    void put_raster(const string& p, const Grid& g, GDALDataType t) {
        if (p.substr(p.size() - 4) == ".asc") simfs::put(p, asc_text(g, 0, (int) sim::draw(16))); else tif_put(p, g, t);
    }
    void store(const string& name, const Grid& g, int type) {      // stored by the library itself
        Client cl; if (!cl.open()) sim::harness_error("no database");
        STRING_MAP o; o["SRS"] = ""; o["DATATYPE_OUT"] = db_type(type)->name;
        clsRasterData<double>* r = g.lyrs > 1 ? new clsRasterData<double>(to_array2d<double>(g), g.cols, g.rows, g.lyrs, g.nodata, g.dx, g.xll, g.yll, o) : new clsRasterData<double>(to_array<double>(g), g.cols, g.rows, g.nodata, g.dx, g.xll, g.yll, o);
        STRING_MAP w; w["INCLUDE_NODATA"] = "TRUE"; w["DATATYPE_OUT"] = db_type(type)->name;
        if (!r->OutputToMongoDB(cl.g, name, w, true, true)) sim::harness_error("cannot store %s", name.c_str());
        delete r;
    }
    void gen() {
        mode = (Mode) sim::weighted({5, 3, 2, 3});
        mongo = sim::flip(1, 3);
        in_gfs = mongo && mode != COMM && sim::flip(1, 2); out_gfs = mongo && sim::flip(2, 3);
        inc = !out_gfs || in_gfs || sim::flip(2, 3);
        has_mask = mode == COMM || sim::flip(3, 4); mask_gfs = has_mask && mongo && sim::flip(1, 3);
        thread = sim::flip(1, 3) ? sim::range(1, 4) : 0;
        gtype = sim::flip(1, 3) ? (int) sim::draw(8) : -1;
        simfs::mkdirs("/sim/in"); if (sim::flip(3, 4)) simfs::mkdirs("/sim/out");
        Grid base = small_grid(1);
        if (has_mask) {
            mask = gen_mask(base); double mnd = sim::flip(1, 4) ? (sim::flip(1, 2) ? 0 : -1) : -9999;
            for (auto& x : mask.v[0]) { if (x == mask.nodata) x = mnd; else if (sim::flip(1, 6)) x = 7; }
            mask.nodata = mnd;
            if (mask_gfs) { mask_path = "basin"; store(mask_path, mask, 5); }
            else { mask_path = sim::flip(1, 2) ? "/sim/in/mask.asc" : "/sim/in/mask.tif"; put_raster(mask_path, mask, sim::flip(1, 2) ? GDT_Int32 : GDT_Float32); }
        }
        int n = 1 + (int) sim::weighted({5, 2, 1});
        for (int k = 0; k < n; k++) gen_item(k, base);
        for (auto& it : items) expect(it);
    }
    void gen_item(int k, const Grid& base) {
        Item it; it.ext = sim::flip(1, 2) ? ".asc" : ".tif"; it.asc = it.ext == ".asc";
        static const char* names[] = {"dem", "land_use", "x1"}; string nm = string(names[k]);
        it.out = out_gfs ? nm + "_o" : "/sim/out/" + nm + "_o" + it.ext;
        if (sim::flip(1, 3)) { static const double d[] = {77, 5, -9999, 0}; it.df = d[sim::draw(4)]; }
        if (sim::flip(1, 3)) it.type = (int) sim::draw(8);
        if (mode == COMM) {
            auto z = mask_zones();
            for (auto& kv : z) if (sim::flip(4, 5) || it.given.empty()) it.given.insert(kv.first);
            int t = (int) sim::draw(3); double snd = sim::flip(1, 2) ? mask.nodata : -32768;
            for (int id : it.given) {
                Zone& s = z[id]; Grid g; g.rows = s.r1 - s.r0 + 1; g.cols = s.c1 - s.c0 + 1; g.dx = mask.dx; g.xll = mask.xll + s.c0 * mask.dx; g.yll = mask.yll + (mask.rows - 1 - s.r1) * mask.dx; g.nodata = snd;
                g.v.assign(1, vector<double>(g.n(), snd));
                bool holes = sim::flip(1, 4);
                for (int f : s.full) { double v = 10 + sim::draw(100); if (t == 2) v += .5; if (holes && sim::flip(1, 4)) v = snd; g.v[0][(size_t) (f / mask.cols - s.r0) * g.cols + f % mask.cols - s.c0] = v; }
                string p = "/sim/in/" + std::to_string(id) + "_" + nm + (sim::flip(1, 2) ? ".asc" : ".tif");
                put_raster(p, g, t == 2 ? GDT_Float32 : GDT_Int32); it.in.push_back(p); it.ly.push_back(g);
            }
            items.push_back(it); return;
        }
        bool zones = mode != MASKM && !has_mask;
        if (sim::flip(1, 3)) { int lyr = 1 + (int) sim::weighted({3, 1}); for (int c = 0; c < 6; c++) if (sim::flip(2, 3)) { vector<double> v; for (int l = 0; l < lyr; l++) v.push_back(20 + sim::draw(60)); it.recls[c] = v; } }
        int L = 1 + (int) sim::weighted({4, 1, 1});
        Grid g = !it.recls.empty() || zones || sim::flip(1, 2) ? small_grid(L) : sim::flip(1, 2) ? gen_grid<float>(L) : gen_grid<short>(L);
        if (sim::flip(2, 3)) { Grid b = base; b.lyrs = L; b.nodata = g.nodata; b.v.assign(L, vector<double>(b.n())); for (int l = 0; l < L; l++) for (int i = 0; i < b.n(); i++) b.v[l][i] = g.v[l][(size_t) i % g.n()]; g = b; }
        if (in_gfs) {
            string p = nm; store(p, g, 7); it.in.push_back(p); it.ly.push_back(g);
        } else for (int l = 0; l < L; l++) {
            Grid x = g; x.lyrs = 1; x.v = {g.v[l]};
            string p = "/sim/in/" + nm + (L > 1 ? "_" + std::to_string(l + 1) : "") + (sim::flip(1, 2) ? ".asc" : ".tif");
            put_raster(p, x, sim::flip(1, 2) ? GDT_Float32 : GDT_Float64); it.in.push_back(p); it.ly.push_back(x);
        }
        if (sim::flip(1, 4)) { static const double d[] = {-9999, -1, 255, -32768}; it.upd = true; it.nd = d[sim::draw(4)]; for (auto& l : g.v) for (double x : l) if (x == it.nd && x != g.nodata) it.upd = false; if (it.df == it.nd) it.upd = false; }
        items.push_back(it);
    }
    std::map<int, Zone> zones_of(const Grid& z) {
        std::map<int, Zone> o;
        for (int i = 0; i < z.n(); i++) if (z.v[0][i] != z.nodata) { Zone& s = o[(int) z.v[0][i]]; int r = i / z.cols, c = i % z.cols; s.full.push_back(i); s.r0 = std::min(s.r0, r); s.r1 = std::max(s.r1, r); s.c0 = std::min(s.c0, c); s.c1 = std::max(s.c1, c); }
        return o;
    }
    std::map<int, Zone> mask_zones() { return zones_of(mask); }
    int type_of(const Item& it) const { return it.type >= 0 ? it.type : gtype >= 0 ? gtype : 7; }

    void add(const Item& it, Exp e) {
        int t = type_of(it);
        if (out_gfs) {
            int r = db_convert(e.g, *db_type(t));
            bool lo = false; for (char c : e.loose) lo |= c;
            if (r == 0) worse(lo ? 2 : 0); else if (r < 0) worse(2);
            else exps.push_back(e);
            return;
        }
        if (!it.asc && t != 7) {
            double lo, hi; bool integral = t < 6;
            static const double los[] = {0, -128, 0, -32768, 0, -2147483648.}, his[] = {255, 127, 65535, 32767, 4294967295., 2147483647.}, nds[] = {255, -128, 65535, -32768, 4294967295., -2147483648.};
            if (integral) {
                lo = los[t]; hi = his[t]; double old = e.g.nodata; bool change = old < lo || old > hi; bool legal = true, loose = false;
                if (change) e.g.nodata = nds[t];
                for (char c : e.loose) loose |= c;
                for (auto& x : e.g.v[e.lyr]) { if (change && x == old) { x = nds[t]; continue; } if (x < lo || x > hi) { legal = false; break; } x = std::trunc(x); }
                if (!legal) { worse(loose ? 2 : 0); return; }
            } else for (auto& x : e.g.v[e.lyr]) x = (double) (float) x;
        }
        exps.push_back(e);
    }
    void add_layers(const Item& it, const string& stem, const Grid& g, const vector<char>& loose, bool whole, int id, const vector<int>& cells) {
        if (out_gfs) { Exp e; e.path = stem; e.g = g; e.loose = loose; e.id = id; e.cells = cells; add(it, e); return; }
        for (int l = 0; l < g.lyrs; l++) {
            Exp e; e.g = g; e.lyr = l; e.loose = loose; e.id = id;
            e.path = dir_of(it.out) + stem + (g.lyrs > 1 ? "_" + std::to_string(whole && it.asc ? l : l + 1) : "") + it.ext;
            add(it, e);
        }
    }
    void expect(Item& it) {
        string core = out_gfs ? it.out : core_of(it.out);
        auto cells_of = [](const Grid& g) { vector<int> o; for (int i = 0; i < g.n(); i++) if (g.v[0][i] != g.nodata) o.push_back(i); return o; };
        if (mode == COMM) {
            auto z = mask_zones(); Grid g = mask; double df = it.df == NODATA_VALUE ? g.nodata : it.df;
            vector<char> lo(g.n(), 0); std::fill(g.v[0].begin(), g.v[0].end(), g.nodata);
            int k = 0;
            for (auto& kv : z) {
                if (!it.given.count(kv.first)) { for (int f : kv.second.full) g.v[0][f] = df; continue; }
                const Grid& s = it.ly[k++]; for (int f : kv.second.full) { double v = s.v[0][(size_t) (f / g.cols - kv.second.r0) * s.cols + f % g.cols - kv.second.c0]; g.v[0][f] = v == s.nodata ? g.nodata : v; }
            }
            add_layers(it, "0_" + core, g, lo, false, -1, cells_of(mask)); return;
        }
        Load ld = in_gfs ? (has_mask ? model_db_mask<double>(it.ly[0], mask, true, it.df) : Load()) : model_load<double>(it.ly, has_mask ? &mask : nullptr, true, it.df);
        if (in_gfs && !has_mask) { ld.g = it.ly[0]; ld.loose.assign(ld.g.n(), 0); }
        if (!ld.ok) { worse(0); return; }
        Grid g = ld.g; vector<char> loose = ld.loose; bool any = false;
        for (int i = 0; i < g.n(); i++) { any |= g.v[0][i] != g.nodata; if (g.lyrs < 2) loose[i] = 0; }
        if (!any) worse(2);
        if (it.upd) { double old = g.nodata; for (auto& l : g.v) for (double x : l) if (x == it.nd && x != old) worse(2); g.nodata = it.nd; for (auto& l : g.v) for (auto& x : l) if (x == old) x = it.nd; }
        // zones: the mask's when decomposing by a mask, otherwise the raster's own
        bool split = mode != MASKM, own = !split || !has_mask; std::map<int, Zone> z, zb;
        if (split || !it.recls.empty()) {
            if (own) { z = zones_of(g); for (int i = 0; i < g.n(); i++) if (g.v[0][i] == g.nodata) { if (g.lyrs > 1) loose[i] = 1; } }
            else {      // zones of the mask which hold valid cells; their extent may be that of all or of the valid cells
                z = zones_of(mask); Grid m = mask; for (int i = 0; i < m.n(); i++) if (g.v[0][i] == g.nodata) m.v[0][i] = m.nodata; zb = zones_of(m);
                for (auto i = z.begin(); i != z.end();) { if (!zb.count(i->first)) z.erase(i++); else ++i; }
            }
            if (z.empty()) worse(2);
        }
        double deflt = it.df != NODATA_VALUE && !it.upd ? it.df : g.nodata, df = it.df == NODATA_VALUE ? deflt : it.df;
        vector<int> cells = has_mask ? cells_of(mask) : cells_of(g);
        if (mode == MASKM || mode == MASKDECM) {
            if (it.recls.empty()) add_layers(it, out_gfs ? "0_" + core : core, g, loose, true, -1, cells);
            else emit(it, g, loose, z, df, true, core, cells);
        }
        if (split) { if (z.count(0) && mode == MASKDECM && (!it.recls.empty() || out_gfs)) { exps.clear(); worse(2); skip = true; } 
            size_t n0 = exps.size(); emit(it, g, loose, z, df, false, core, cells);
            if (!zb.empty()) { vector<Exp> a(exps.begin() + n0, exps.end()); exps.resize(n0); emit(it, g, loose, zb, df, false, core, cells); for (size_t i = n0; i < exps.size() && i - n0 < a.size(); i++) exps[i].alt = std::make_shared<Exp>(a[i - n0]); }
        }
    }
    bool skip = false;
    // subsets of the original raster, reclassified or not, one by one or combined
    void emit(Item& it, const Grid& g, const vector<char>& loose, std::map<int, Zone>& z, double df, bool combined, const string& core, const vector<int>& cells) {
        World<double> w; w.g = g; w.deflt = df;
        for (auto& kv : z) { Sub s; s.full = kv.second.full; s.r0 = kv.second.r0; s.r1 = kv.second.r1; s.c0 = kv.second.c0; s.c1 = kv.second.c1; w.subs[kv.first] = s; }
        auto e = w.expect(true, combined, it.recls, df);
        if (!e.ok) { worse(z.empty() ? 2 : 0); return; }
        for (int i = 0; i < g.n(); i++) e.loose[i] |= loose[i];
        if (combined) { add_layers(it, "0_" + core, e.all, e.loose, false, -1, cells); return; }
        for (auto& kv : e.one) {
            Sub& s = w.subs[kv.first]; vector<char> lo(kv.second.n(), 0); vector<int> c;
            for (int f : s.full) { int k = (f / g.cols - s.r0) * kv.second.cols + f % g.cols - s.c0; lo[k] = e.loose[f]; c.push_back(k); }
            add_layers(it, std::to_string(kv.first) + "_" + core, kv.second, lo, false, kv.first, c);
        }
    }
    vector<vector<string>> groups(bool cfg, size_t first) {
        vector<vector<string>> o; auto& it = items[0];
        auto fmt = [&](bool gfs) { return string(gfs ? sim::flip(1, 2) ? "GFS" : "gridfs" : sim::flip(1, 2) ? "FILE" : "sfile"); };
        if (first == 1) {
            string in; for (auto& s : it.in) in += (in.empty() ? "" : ",") + s;
            o.push_back({sim::flip(1, 3) ? "-input" : "-in"}); if (in_gfs || sim::flip(1, 3)) o.back().push_back(fmt(in_gfs)); o.back().push_back(in);
            o.push_back({"-out"}); if (out_gfs || mongo || sim::flip(1, 3)) o.back().push_back(fmt(out_gfs)); o.back().push_back(it.out);
            if (it.df != NODATA_VALUE || sim::flip(1, 8)) o.push_back({"-default", num(it.df)});
            if (it.upd) o.push_back({"-nodata", num(it.nd)});
            if (!it.recls.empty()) o.push_back({"-reclass", recls_text(it.recls)});
            int t = it.type >= 0 ? it.type : gtype; if (t >= 0) o.push_back({"-outdatatype", kTypeNames[t]});
        } else {
            if (mongo && sim::flip(1, 2)) fmts_given = true;
            if (mongo && (!out_gfs || fmts_given)) o.push_back({"-out", fmt(out_gfs)});
            if (mongo && fmts_given) o.push_back({"-in", fmt(in_gfs)});
            if (gtype >= 0) o.push_back({"-outdatatype", kTypeNames[gtype]});
        }
        if (has_mask) { o.push_back({"-mask"}); if (mask_gfs || sim::flip(1, 3)) o.back().push_back(fmt(mask_gfs)); o.back().push_back(mask_path); }
        if (mode != MASKM || sim::flip(1, 2)) o.push_back({"-mode", kModes[mode]});
        if (mongo) o.push_back({"-mongo", "127.0.0.1", "27017", kDb, kGfs});
        if (!inc || sim::flip(1, 4)) o.push_back({"-include_nodata", inc ? "1" : "0"});
        if (thread) o.push_back({"-thread", std::to_string(thread)});
        for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[sim::draw((uint32_t) i)]);
        (void) cfg; return o;
    }
    static string item_line(const Item& it, bool pad) {
        string in; for (auto& s : it.in) in += (in.empty() ? "" : ",") + s;
        vector<string> f = {in, it.out, it.df != NODATA_VALUE ? num(it.df) : "", it.upd ? num(it.nd) : "", it.type >= 0 ? kTypeNames[it.type] : "", recls_text(it.recls)};
        if (!pad) while (f.back().empty()) f.pop_back();
        string s; for (size_t i = 0; i < f.size(); i++) s += (i ? ";" : "") + f[i]; return s;
    }
};
static string diff_exp(const Run& R, const Exp& e, const Item& any) {
    (void) any;
    if (!R.out_gfs) {
        Grid w = e.g; bool asc = e.path.substr(e.path.size() - 4) == ".asc"; string why, text; Grid f; GDALDataType t = GDT_Unknown;
        bool ok = asc ? simfs::get(e.path, text) && asc_parse(text, f, why) : simfs::exists(e.path) && tif_read(e.path, f, t, why);
        if (ok && f.rows == w.rows && f.cols == w.cols) for (int i = 0; i < w.n(); i++) if (e.loose[i]) w.v[e.lyr][i] = f.v[0][i];
        return asc ? diff_asc(e.path, w, e.lyr, false) : "";
    }
    return "";
}
static bool decode(const string& type, const string& d, vector<double>& o) {
    o.clear();
#define DEC(N, C) if (type == N) { if (d.size() % sizeof(C)) return false; for (size_t i = 0; i < d.size(); i += sizeof(C)) { C v; memcpy(&v, &d[i], sizeof v); o.push_back((double) v); } return true; }
    DEC("UINT8", uint8_t) DEC("INT8", int8_t) DEC("UINT16", uint16_t) DEC("INT16", int16_t) DEC("UINT32", uint32_t) DEC("INT32", int32_t) DEC("UINT64", uint64_t) DEC("INT64", int64_t) DEC("FLOAT", float) DEC("DOUBLE", double)
#undef DEC
    return false;
}
static string diff_tif_loose(const Exp& e, GDALDataType t) {
    Grid w = e.g, f; GDALDataType ft; string why;
    if (simfs::exists(e.path) && tif_read(e.path, f, ft, why) && f.rows == w.rows && f.cols == w.cols) for (int i = 0; i < w.n(); i++) if (e.loose[i]) w.v[e.lyr][i] = f.v[0][i];
    return diff_tif(e.path, w, e.lyr, t);
}
static string diff_db(const Exp& e, int type, bool inc) {
    auto fs = named(e.path); Files m; double d;
    for (auto& f : fs) if (!strcasecmp(meta_num(f.meta, "INCLUDE_NODATA", d).c_str(), inc ? "TRUE" : "FALSE")) m.push_back(f);
    if (m.size() != 1) return "'" + e.path + "' is stored " + std::to_string(m.size()) + " times";
    const DbType* t = db_type(type); vector<double> v;
    if (!m[0].complete || !decode(t->name, m[0].data, v)) return "'" + e.path + "' holds " + std::to_string(m[0].data.size()) + " bytes, not cells of type " + t->name;
    vector<int> all, valid; for (int i = 0; i < e.g.n(); i++) { all.push_back(i); if (e.g.v[0][i] != e.g.nodata) valid.push_back(i); }
    string first;
    for (auto* c : inc ? vector<const vector<int>*>{&all} : vector<const vector<int>*>{&e.cells, &valid}) {
        string why;
        if (v.size() != c->size() * e.g.lyrs) why = "holds " + std::to_string(v.size()) + " values instead of " + std::to_string(c->size() * e.g.lyrs);
        for (size_t k = 0; why.empty() && k < c->size(); k++) for (int l = 0; l < e.g.lyrs; l++) { double a = v[k * e.g.lyrs + l], b = e.g.v[l][(*c)[k]]; if (!e.loose[(*c)[k]] && !same_num(a, b)) why = "layer " + std::to_string(l + 1) + " cell " + std::to_string((*c)[k]) + " is " + show_num(a) + " instead of " + show_num(b); }
        Stored s; s.g = e.g; s.full = inc; s.type = t->name; s.ncells = (int) c->size();
        if (why.empty()) why = diff_meta(m[0], s);
        if (why.empty()) return "";
        if (first.empty()) first = "'" + e.path + "' " + why;
    }
    return first;
}
static int run_tool(const vector<string>& args) {
    vector<vector<char>> mem; vector<const char*> av;
    string line; for (auto& a : args) { mem.push_back(vector<char>(a.begin(), a.end())); mem.back().push_back(0); line += " " + a; }
    for (auto& m : mem) av.push_back(m.data());
    av.push_back(nullptr);
    const char** heap = new const char*[av.size()]; std::copy(av.begin(), av.end(), heap);
    sim::log("run%.700s", line.c_str());
    int rc = -1;
    guarded("mask_rasterio", [&]() { rc = app_main((int) args.size(), heap); });
    delete[] heap;
    sim::log("exit %d", rc);
    return rc;
}
void prop_run() {
    simfs::reset(); simfs::sim_relative = true; simfs::mkdirs("/sim/work"); simfs::sim_cwd = "/sim/work"; simthr::configure_from_tape();
    simdb::server.dbs.clear(); simdb::disarm();
    Run R; R.gen(); if (R.skip) return;
    // older outputs
    for (auto& e : R.exps) if (!R.out_gfs && sim::flip(1, 6)) simfs::put(e.path, "older content\n");
    enum { NONE, NO_INPUT, NO_MASK, BAD_INPUT, BAD_MASK, BAD_VALUE, BAD_OUT, NO_VALUE, MUTATED, NO_DB };
    int sab = (int) sim::weighted({16, 1, 1, 2, 1, 2, 1, 1, 3, 1});
    if (sab == NO_MASK || sab == BAD_MASK) if (!R.has_mask) sab = NONE;
    if (sab == NO_DB && !(R.in_gfs || R.out_gfs || R.mask_gfs)) sab = NONE;
    if (sab == BAD_OUT && R.out_gfs) sab = NONE;
    auto spoil = [&](const string& p, bool gone, bool gfs) {
        if (gfs) { auto& d = simdb::server.dbs; (void) d; Client cl; if (!cl.open()) sim::harness_error("no database"); cl.g->RemoveFile(p); if (!gone) { bson_t m; bson_init(&m); BSON_APPEND_UTF8(&m, "INCLUDE_NODATA", "TRUE"); simdb::put_file(kDb, kGfs, p, "junk", &m); bson_destroy(&m); } return; }
        if (gone) { simfs::rm(p); return; }
        switch (sim::draw(3)) { case 0: simfs::put(p, ""); break; case 1: simfs::put(p, "neither grid nor image\n"); break; default: simfs::rm(p); simfs::mkdirs(p); }
    };
    Item& victim = R.items[sim::draw((uint32_t) R.items.size())];
    bool must_fail = sab != NONE && sab != MUTATED;
    if (sab == NO_INPUT || sab == BAD_INPUT) spoil(victim.in[sim::draw((uint32_t) victim.in.size())], sab == NO_INPUT, R.in_gfs);
    if (sab == NO_MASK || sab == BAD_MASK) spoil(R.mask_path, sab == NO_MASK, R.mask_gfs);
    if (sab == BAD_OUT) { simfs::rm("/sim/out"); simfs::put("/sim/out", "a file"); }
    // arguments
    bool cfg_items = R.items.size() > 1 || sim::flip(1, 3);
    auto gr = R.groups(cfg_items, cfg_items ? 0 : 1);
    if (sab == BAD_VALUE) {
        static const char* const bad[][2] = {{"-default", "low"}, {"-nodata", "1.5x"}, {"-reclass", "1"}, {"-reclass", "a:2"}, {"-reclass", "1:2|x"}, {"-mode", "MERGE"}, {"-outdatatype", "text"}, {"-reclass", "1:2,3"}};
        int b = (int) sim::draw(8); bool done = false;
        for (auto& g : gr) if (g[0] == bad[b][0]) { g.back() = bad[b][1]; done = true; }
        if (!done) gr.push_back({bad[b][0], bad[b][1]});
    }
    if (sab == NO_VALUE && gr.empty()) gr.push_back({"-mode"}); else if (sab == NO_VALUE) { auto& g = gr[sim::draw((uint32_t) gr.size())]; g.resize(1); }
    vector<string> args = {"mask_rasterio"}; string cfg; const char* eol = sim::flip(1, 4) ? "\r\n" : "\n";
    bool all_cfg = cfg_items && sim::flip(1, 2);
    if (sim::flip(1, 3)) cfg += string("# settings") + eol;
    for (auto& g : gr) {
        if (all_cfg || (cfg_items && sim::flip(1, 3))) { for (size_t i = 0; i < g.size(); i++) cfg += (i ? "\t" : "") + g[i]; cfg += eol; }
        else for (auto& s : g) args.push_back(s);
    }
    if (cfg_items) {
        bool pad = sim::flip(1, 3); for (auto& it : R.items) { cfg += Run::item_line(it, pad) + eol; if (sim::flip(1, 4)) cfg += eol; }
        simfs::put("/sim/in/run.cfg", cfg); sim::log("config:\n%.900s", cfg.c_str());
        if (args.size() == 1) { if (sim::flip(1, 2)) args.push_back("-configfile"); args.push_back("/sim/in/run.cfg"); }
        else { size_t at = sim::flip(1, 2) ? 1 : args.size(); args.insert(args.begin() + at, {"-configfile", "/sim/in/run.cfg"}); }
    }
    bool open = sab == MUTATED;
    if (sab == MUTATED) {
        int n = sim::range(1, 3);
        for (int k = 0; k < n; k++) {
            size_t i = 1 + sim::draw((uint32_t) args.size());
            static const char* const junk[] = {"", "-", "--", "-in", "-mask", "-out", "-configfile", "x", "/sim/in", "/sim/in/none.tif", "1", "-1", ",", ";", "file", "gfs", "-thread", "0", "-5", ":", "1:1", "/", ".", "-reclass", "-mode", "a.tif,b.tif", "/sim/work/", "..", "\t"};
            switch (sim::draw(4)) {
                case 0: if (args.size() > 1) args.erase(args.begin() + std::min(i, args.size() - 1)); break;
                case 1: args.insert(args.begin() + std::min(i, args.size()), junk[sim::draw(29)]); break;
                case 2: if (args.size() > 1) args[std::min(i, args.size() - 1)] = junk[sim::draw(29)]; break;
                default: if (cfg_items && !cfg.empty()) { size_t a = sim::draw((uint32_t) cfg.size()), l = 1 + sim::draw(12); static const char* const cj[] = {"", ";", ",", "\t", "\n", "-", "#", ";;;;;;", "x", " "}; cfg.replace(a, std::min(l, cfg.size() - a), cj[sim::draw(10)]); simfs::put("/sim/in/run.cfg", cfg); sim::log("config:\n%.900s", cfg.c_str()); }
            }
        }
    }
    if (!R.out_gfs && !simfs::exists("/sim/out") && R.verdict == 1) R.verdict = 2;      // not every format makes directories
    // faults
    bool faults = sab == NONE && sim::flip(1, 3); vector<simfs::Rule> rl; vector<simdb::Rule> dl;
    if (faults && R.mongo && sim::flip(2, 3)) dl = gen_net(kWriteFaults, 40, 0);
    else if (faults) { int n = sim::range(1, 2); for (int k = 0; k < n; k++) rl.push_back(draw_rule({{simfs::WRITE, {28, 5, -1}}, {simfs::OPEN_W, {13, 28}}, {simfs::CLOSE, {5}}, {simfs::RENAME, {5}}, {simfs::READ, {5, -1}}, {simfs::OPEN_R, {13, 24, 5}}, {simfs::STAT, {13}}, {simfs::MKDIR, {13, 28}}, {simfs::WRITE | simfs::OPEN_W | simfs::RENAME, {28}}}, 60)); }
    if (sab == NO_DB) { simdb::Rule r; r.kind = simdb::REFUSE; r.cmd = "connect"; r.nth = 0; r.count = 1000000; dl.push_back(r); }
    simdb::arm(dl); simfs::arm(rl); bound_gdal(200000);
    uint64_t f0 = simdb::fault_count();
    int rc = run_tool(args);
    bool fired = simdb::fault_count() > f0; for (auto& r : simfs::rules) fired |= r.fired > 0;
    simfs::disarm(); simfs::on_op = nullptr; simdb::disarm(); calm();
    if (fired || sab != NONE || R.exps.size() > 1) sim::mark_nontrivial();
    sim::log("mode %s items %zu mask %d in %s out %s verdict %d outputs %zu sabotage %d fault %d", kModes[R.mode], R.items.size(), R.has_mask, R.in_gfs ? "gfs" : "file", R.out_gfs ? "gfs" : "file", R.verdict, R.exps.size(), sab, fired);
    if (open) return;
    check_escapes();
    if (rc == 0 && must_fail) sim::violate("unreported-failure", "exit status 0 although %s", sab == NO_INPUT ? "an input does not exist" : sab == NO_MASK ? "the mask does not exist" : sab == BAD_INPUT ? "an input is not a raster" : sab == BAD_MASK ? "the mask is not a raster" : sab == BAD_OUT ? "the output directory cannot be made" : sab == NO_DB ? "the database refuses connections" : "an argument is illegal");
    if (must_fail) return;
    if (rc == 0 && R.verdict == 0) sim::violate("unreported-failure", "exit status 0 although an output cannot be made as asked");
    if (rc != 0 && R.verdict == 1 && !fired) sim::violate("refused-healthy", "exit status %d on a healthy system", rc);
    if (rc == 0) for (auto& e : R.exps) {
        const Item* it = nullptr; for (auto& x : R.items) { string c = R.out_gfs ? x.out : core_of(x.out); if (e.path.find(c) != string::npos) it = &x; }
        int t = R.type_of(*it); auto check = [&](const Exp& e) { return R.out_gfs ? diff_db(e, t, R.inc) : it->asc ? diff_exp(R, e, *it) : diff_tif_loose(e, kGdts[t]); };
        string d = check(e); if (!d.empty() && e.alt && check(*e.alt).empty()) d = "";
        if (!d.empty()) sim::violate("wrong-output", "exit status 0, but %s", d.c_str());
    }
}
