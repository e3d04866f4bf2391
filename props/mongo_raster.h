// Rasters in the database: generated sources, expected stored content, reading back in every supported way.
#ifndef PROPS_MONGO_RASTER_H
#define PROPS_MONGO_RASTER_H
#include "props/mongo_common.h"

struct DbType { RasterDataType t; const char* name; double lo, hi; bool integral; };
static const DbType kDbTypes[] = {
    {RDT_UInt8, "UINT8", 0, 255, true}, {RDT_Int8, "INT8", -128, 127, true}, {RDT_UInt16, "UINT16", 0, 65535, true}, {RDT_Int16, "INT16", -32768, 32767, true},
    {RDT_UInt32, "UINT32", 0, 4294967295., true}, {RDT_Int32, "INT32", -2147483648., 2147483647., true},
    {RDT_UInt64, "UINT64", 0, 18446744073709551615., true}, {RDT_Int64, "INT64", -9223372036854775808., 9223372036854775807., true},
    {RDT_Float, "FLOAT", -FLT_MAX, FLT_MAX, false}, {RDT_Double, "DOUBLE", -DBL_MAX, DBL_MAX, false}};
// 1: g holds what is stored as that type; 0: some value does not fit; -1: open
inline int db_convert(Grid& g, const DbType& t) {
    double old = g.nodata; bool change = old < t.lo || old > t.hi;
    auto cast = [&](double x) { return t.integral ? std::trunc(x) : t.t == RDT_Float ? (double) (float) x : x; };
    if (change) g.nodata = t.lo < 0 ? t.lo : t.hi; else g.nodata = cast(old);
    int r = 1;
    for (auto& l : g.v) for (auto& x : l) {
        if (x == old) { x = g.nodata; continue; }
        if (!std::isfinite(x)) { if (t.integral) return 0; continue; }
        if (t.hi > 1e18 && t.integral && (x >= t.hi || (t.lo < -1e18 && x <= t.lo))) { if (x == t.lo) r = std::min(r, -1); else return 0; }   // doubles of 64-bit limits
        if (x < t.lo || x > t.hi) { if (t.integral && x > t.lo - 1 && x < t.hi + 1) r = std::min(r, -1); else return 0; }
        x = cast(x);
    }
    return r;
}
struct UserOpts {                     // user-specific metadata, part of the identity of a stored raster
    STRING_MAP m;
    static UserOpts gen() {
        UserOpts o;
        if (sim::flip(1, 3)) o.m["SCENARIO"] = std::to_string(sim::draw(3));
        if (sim::flip(1, 4)) o.m["UNIT"] = sim::flip(1, 2) ? "mm" : "0.5";
        if (sim::flip(1, 8)) o.m["STAMP"] = "5000000000";
        return o;
    }
};
template <class T> struct DbRaster {
    typedef clsRasterData<T, int> R;
    R* rs = nullptr; clsRasterData<int>* mask = nullptr;
    Grid g;                           // full-grid view
    vector<char> pos;                 // cells with storage if positions are calculated
    const DbType* out = nullptr;
    string what;
    ~DbRaster() { delete rs; delete mask; }
    static const DbType* own() {
        const char* n = typeid(T) == typeid(float) ? "FLOAT" : typeid(T) == typeid(double) ? "DOUBLE" : typeid(T) == typeid(int) ? "INT32" : typeid(T) == typeid(short) ? "INT16" : "UINT8";
        for (auto& t : kDbTypes) if (string(t.name) == n) return &t;
        return nullptr;
    }
    void make(int lyrs, bool typed = true, int maxdim = 0) {
        bool two = lyrs > 1 || sim::flip(1, 12), calc = sim::flip(1, 2);
        STRING_MAP opts; opts["SRS"] = "";
        out = own();
        if (typed && sim::flip(1, 3)) { out = &kDbTypes[sim::draw(10)]; opts["DATATYPE_OUT"] = out->name; }
        Grid a = maxdim ? gen_grid<T>(lyrs, sim::range(1, maxdim), sim::range(1, maxdim)) : gen_grid<T>(lyrs);
        if (out != own() && sim::flip(1, 4)) at_limits<T>(a);
        int how = (int) sim::weighted({4, 2, 2});
        bool done = false;
        simfs::mkdirs("/sim/in");
        if (how) {                    // loaded from files, perhaps masked
            bool ext = sim::flip(1, 2);
            if (how == 2) { Grid m = gen_mask(a); mask = new clsRasterData<int>(to_array<int>(m), m.cols, m.rows, (int) m.nodata, m.dx, m.xll, m.yll); }
            vector<string> fs; bool two0 = two; two = lyrs > 1;
            for (int l = 0; l < lyrs; l++) { fs.push_back("/sim/in/g_" + std::to_string(l + 1) + ".tif"); tif_put(fs.back(), a, gdt_of<T>(), l); }
            rs = new R(); if (!opts.count("DATATYPE_OUT")) opts["DATATYPE_OUT"] = out->name;
            guarded("load", [&]() { done = two ? rs->ReadFromFiles(fs, calc, mask, ext, NODATA_VALUE, opts) : rs->ReadFromFile(fs[0], calc, mask, ext, NODATA_VALUE, opts); });
            if (!done) { delete rs; rs = nullptr; delete mask; mask = nullptr; two = two0; } else rs->SetCoreName("core");
        }
        if (!done) guarded("construct", [&]() {
            if (two) rs = new R(to_array2d<T>(a), a.cols, a.rows, lyrs, (T) a.nodata, a.dx, a.xll, a.yll, opts);
            else rs = new R(to_array<T>(a), a.cols, a.rows, (T) a.nodata, a.dx, a.xll, a.yll, opts);
            rs->SetCoreName("core");
            if (calc) rs->SetCalcPositions();
        });
        if (!rs->ValidateRasterData()) { delete rs; rs = nullptr; delete mask; mask = nullptr; make(lyrs, typed, maxdim); return; }
        g = view(rs);
        what = string("raster<") + typeid(T).name() + "> " + std::to_string(g.rows) + "x" + std::to_string(g.cols) + "x" + std::to_string(g.lyrs) + (how == 1 ? " loaded" : how == 2 ? " masked" : "") + (calc ? " positions" : "") + " as " + out->name;
    }
    // cells stored in a valid-only version: those with a position, otherwise those with a valid first layer
    vector<char> cells() {
        vector<char> p((size_t) g.n(), 0);
        bool calc = rs->PositionsCalculated();
        for (int i = 0; i < g.n(); i++) p[i] = calc ? rs->GetPosition(i / g.cols, i % g.cols) >= 0 : g.v[0][i] != g.nodata;
        return p;
    }
};
// what a stored version has to give
struct Stored {
    Grid g; bool full = true; string type; vector<char> cells; int ncells = 0; STRING_MAP user;
};
template <class T> Stored expect(DbRaster<T>& r, bool full, const UserOpts& u) {
    Stored s; s.g = r.g; s.full = full; s.type = r.out->name; s.user = u.m; s.cells = r.cells();
    if (full) s.ncells = s.g.n(); else {
        for (char c : s.cells) s.ncells += c;
        for (int l = 0; l < s.g.lyrs; l++) for (int i = 0; i < s.g.n(); i++) if (!s.cells[i]) s.g.v[l][i] = s.g.nodata;
    }
    return s;
}
inline string meta_num(const simdb::Raw& raw, const string& key, double& d) {
    bson_t b; bson_iter_t it;
    if (raw.empty() || !bson_init_static(&b, raw.data(), raw.size()) || !bson_iter_init_find(&it, &b, key.c_str())) return "missing";
    if (BSON_ITER_HOLDS_UTF8(&it)) return bson_iter_utf8(&it, nullptr);
    if (!BSON_ITER_HOLDS_NUMBER(&it)) return "not a number";
    d = bson_iter_as_double(&it); return "";
}
inline string diff_meta(const simdb::File& f, const Stored& s) {
    std::map<string, double> h = {{"NCOLS", s.g.cols}, {"NROWS", s.g.rows}, {"XLLCENTER", s.g.xll}, {"YLLCENTER", s.g.yll}, {"CELLSIZE", s.g.dx}, {"NODATA_VALUE", s.g.nodata}, {"LAYERS", s.g.lyrs}, {"CELLSNUM", s.ncells}};
    for (auto& kv : h) {
        double d = 0; string e = meta_num(f.meta, kv.first, d);
        if (!e.empty()) return kv.first + " is " + e;
        if (std::fabs(d - kv.second) > 1e-9 * (1 + std::fabs(kv.second))) return kv.first + " is " + show_num(d) + " instead of " + show_num(kv.second);
    }
    double d; string t = meta_num(f.meta, "DATATYPE_OUT", d);
    if (strcasecmp(t.c_str(), s.type.c_str())) return "value type is " + t + " instead of " + s.type;
    string inc = meta_num(f.meta, "INCLUDE_NODATA", d);
    if (strcasecmp(inc.c_str(), s.full ? "TRUE" : "FALSE")) return "INCLUDE_NODATA is " + inc;
    for (auto& kv : s.user) {
        double v = 0, w = 0; string e = meta_num(f.meta, kv.first, v); char* end; w = strtod(kv.second.c_str(), &end);
        if (*end ? e != kv.second : !e.empty() || v != w) return "option " + kv.first + " is " + (e.empty() ? show_num(v) : e) + " instead of " + kv.second;
    }
    return "";
}
inline STRING_MAP read_opts(const Stored& s) { STRING_MAP o = s.user; if (!s.full || sim::flip(1, 3)) o["INCLUDE_NODATA"] = s.full ? "TRUE" : "FALSE"; return o; }

// masking of stored full data: as in memory, the default value applies to all layers
template <class T> Load model_db_mask(const Grid& a, const Grid& mask, bool use_ext, double deflt) {
    Load o; double nd = a.nodata;
    if (deflt == NODATA_VALUE && nd != NODATA_VALUE) deflt = nd;
    o.g = mask; o.g.nodata = nd; o.g.lyrs = a.lyrs; o.g.v.assign(a.lyrs, vector<double>(mask.n(), nd)); o.loose.assign(mask.n(), 0);
    int r0 = mask.rows, r1 = -1, c0 = mask.cols, c1 = -1, inside = 0, matched = 0;
    for (int r = 0; r < mask.rows; r++) for (int c = 0; c < mask.cols; c++) {
        if (is_nd(mask.at(r, c), mask.nodata)) continue;
        int ar, ac;
        if (!locate(a, xof(mask, c), yof(mask, r), ar, ac)) continue;
        inside++;
        for (int l = 0; l < a.lyrs; l++) {
            double v = a.at(ar, ac, l);
            if (v == nd && deflt != nd) v = cast<T>(deflt);
            o.g.at(r, c, l) = v;
        }
        if (a.at(ar, ac) != nd) { matched++; r0 = std::min(r0, r); r1 = std::max(r1, r); c0 = std::min(c0, c); c1 = std::max(c1, c); }
        if (o.g.at(r, c) == nd) o.loose[(size_t) r * mask.cols + c] = 1;
    }
    if (!inside || (!matched && !use_ext)) { o.ok = false; return o; }
    if (!use_ext) {
        Grid s = o.g; s.rows = r1 - r0 + 1; s.cols = c1 - c0 + 1; s.xll = xof(mask, c0); s.yll = yof(mask, r1);
        s.v.assign(a.lyrs, vector<double>(s.n(), nd)); vector<char> lo(s.n(), 0);
        for (int r = r0; r <= r1; r++) for (int c = c0; c <= c1; c++) { for (int l = 0; l < a.lyrs; l++) s.at(r - r0, c - c0, l) = o.g.at(r, c, l); lo[(size_t) (r - r0) * s.cols + c - c0] = o.loose[(size_t) r * mask.cols + c]; }
        o.g = s; o.loose = lo;
    }
    return o;
}
inline clsRasterData<int>* int_raster(const Grid& m) { return new clsRasterData<int>(to_array<int>(m), m.cols, m.rows, (int) m.nodata, m.dx, m.xll, m.yll); }
template <class U> bool fits(const Stored& s) {
    Lim l = lim_of<U>();
    auto ok = [&](double v) { return v >= (l.integral ? l.lo : -(double) std::numeric_limits<U>::max()) && v <= l.hi && (double) (U) v == v; };
    if (!ok(s.g.nodata)) return false;
    for (auto& y : s.g.v) for (double v : y) if (!ok(v)) return false;
    return true;
}
// One read of the stored version through the raster class; the way is drawn. Returns whether the read
// succeeded; a successful read that differs from s is a violation. may_fail: faults may have been at work.
template <class U> bool read_back(MongoGridFs* gfs, const string& name, const Stored& s, bool may_fail, const char* when, const Stored* other = nullptr) {
    typedef clsRasterData<U, int> R;
    R* rs = nullptr; bool ok = false; string d; char b[400];
    STRING_MAP opts = read_opts(s);
    bool calc = sim::flip(1, 2); int how = (int) sim::weighted({4, 3, 1}); if (s.g.n() > 3000) { how = 0; calc = false; }
    clsRasterData<int>* mask = nullptr; int** pd = nullptr; int* pi = nullptr;
    bool by_class = false, used = how != 1 && sim::flip(1, 6);
    if (used) guarded("used", [&]() { Grid z = gen_grid<U>(1, 2, 2); rs = new R(to_array<U>(z), 2, 2, (U) z.nodata, z.dx, z.xll, z.yll); if (sim::flip(1, 2)) rs->UpdateStatistics(); });
    auto bad = [&](const char* cls, const string& t) { snprintf(b, sizeof b, "%s: %s version of '%s' (%s, %dx%d cells, %d layers): %s", when, s.full ? "full" : "valid-only", name.c_str(), s.type.c_str(), s.g.rows, s.g.cols, s.g.lyrs, t.c_str()); sim::violate(cls, "%s", b); };
    auto load = [&](clsRasterData<int>* m, bool use_ext, double deflt) {
        guarded("ReadFromMongoDB", [&]() {
            switch (rs ? 0 : sim::weighted({3, 1, 1})) {
                case 0: if (!rs) rs = new R(); ok = rs->ReadFromMongoDB(gfs, name, calc, m, use_ext, deflt, opts); break;
                case 1: rs = R::Init(gfs, name.c_str(), calc, m, use_ext, deflt, opts); ok = rs != nullptr; by_class = true; break;
                default: rs = new R(gfs, name.c_str(), calc, m, use_ext, deflt, opts); ok = rs->ValidateRasterData(); by_class = true; break;
            }
        });
        sim::log("%s: read '%s' mask %d ext %d calc %d -> %d", when, name.c_str(), m != nullptr, use_ext, calc, ok);
    };
    bool want_ok = true; Load want; want.g = s.g; want.loose.assign(s.g.n(), 0);
    bool any_valid = false; for (double v : s.g.v[0]) any_valid |= v != s.g.nodata;
    if (s.full && how == 1) {
        Grid m = gen_mask(s.g); bool ext = sim::flip(1, 2); double deflt = sim::flip(1, 4) ? 7 : NODATA_VALUE;
        mask = int_raster(m); want = model_db_mask<U>(s.g, m, ext, deflt); want_ok = want.ok;
        bool left = false; if (want.ok) for (double v : want.g.v[0]) left |= v != want.g.nodata;
        load(mask, ext, deflt);
        any_valid = left;
    } else if (s.full) {
        for (int i = 0; i < s.g.n(); i++) want.loose[i] = calc && s.g.v[0][i] == s.g.nodata;
        load(nullptr, sim::flip(1, 2), NODATA_VALUE);
    } else if (how == 0) {            // positions of a mask with the same cells
        Grid m = s.g; m.lyrs = 1; m.nodata = -9999; m.v.assign(1, vector<double>(m.n(), -9999));
        for (int i = 0; i < m.n(); i++) if (s.cells[i]) m.v[0][i] = 1;
        bool wrong = sim::flip(1, 6);
        if (wrong) { if (sim::flip(1, 2)) { m.xll += m.dx; } else { int k = 0; while (k < m.n() && m.v[0][k] == 1) k++; if (k < m.n()) m.v[0][k] = 1; else m.yll += m.dx; } want_ok = false; }
        mask = int_raster(m); load(mask, true, NODATA_VALUE);
    } else if (how == 1) {            // positions and header assigned beforehand
        int n = 0; utils_array::Initialize2DArray(s.ncells, 2, pd, 0); utils_array::Initialize1DArray(s.ncells, pi, 0);
        for (int i = 0; i < s.g.n(); i++) if (s.cells[i]) { pd[n][0] = i / s.g.cols; pd[n][1] = i % s.g.cols; pi[n++] = i; }
        STRDBL_MAP h = header_of(s.g); h["LAYERS"] = s.g.lyrs; h["CELLSNUM"] = s.ncells;
        bool wrong = sim::flip(1, 6);
        if (wrong) { static const char* k[] = {"NCOLS", "NROWS", "LAYERS", "CELLSNUM"}; h[k[sim::draw(4)]] += 1; want_ok = false; }
        guarded("preset", [&]() { rs = new R(); rs->SetHeader(h); rs->SetPositions(s.ncells, pd); rs->SetPositions(s.ncells, pi); });
        load(nullptr, false, NODATA_VALUE);
    } else {                          // nothing says where the cells are
        want_ok = s.ncells == s.g.n(); load(nullptr, false, NODATA_VALUE);
        if (want_ok && !ok) may_fail = true;
    }
    if (ok) {
        bool empty = !rs->ValidateRasterData();
        if (!want_ok) bad("accepted", "read although positions, mask or header do not belong to it");
        else if (empty) { if (any_valid) bad("no-data-read", "no data after a successful read"); }
        else {
            Grid v; guarded("view", [&]() { v = view(rs); });
            d = diff_load(v, want, false);
            if (!d.empty()) bad("wrong-raster", d);
            for (auto& kv : s.user) {
                auto o = rs->GetOptions(); auto it = o.find(kv.first);
                if (it == o.end() || (it->second != kv.second && strtod(it->second.c_str(), nullptr) != strtod(kv.second.c_str(), nullptr))) bad("wrong-option", kv.first + " read as " + (it == o.end() ? "nothing" : it->second));
            }
        }
    } else {
        if (want_ok && !may_fail && !(by_class && !any_valid)) bad("unreadable", "cannot be read");
        if (rs && !used && rs->ValidateRasterData()) bad("partial-result", "a failed read left data");
    }
    guarded("release", [&]() { delete rs; delete mask; if (pd) utils_array::Release2DArray(pd); if (pi) utils_array::Release1DArray(pi); });
    (void) other;
    return ok || !want_ok;
}
// Versions whose cells follow from a few numbers, to keep the tape short; big ones take several chunks.
inline void make_version(DbRaster<double>& r, int seed, bool big) {
    Grid a; a.lyrs = 1 + (seed % 3 == 2); int d = big ? 150 : 0;
    a.rows = d + 1 + seed * 7 % 6; a.cols = d + 1 + seed * 5 % 7; a.dx = 1 + seed % 4; a.xll = 10 * (seed % 5); a.yll = 7 * (seed % 3); a.nodata = -9999;
    a.v.assign(a.lyrs, vector<double>(a.n()));
    for (int l = 0; l < a.lyrs; l++) for (int i = 0; i < a.n(); i++) a.v[l][i] = i && (i + seed) % 5 == 0 ? a.nodata : (seed * 37 + i * 3 + l * 11) % 100;
    static const int kinds[] = {9, 8, 1, 5}; int k = kinds[(seed / 2) % 4];
    r.out = &kDbTypes[k]; STRING_MAP o; o["SRS"] = ""; if (k != 9) o["DATATYPE_OUT"] = r.out->name;
    if (a.lyrs > 1) r.rs = new DbRaster<double>::R(to_array2d<double>(a), a.cols, a.rows, a.lyrs, a.nodata, a.dx, a.xll, a.yll, o);
    else r.rs = new DbRaster<double>::R(to_array<double>(a), a.cols, a.rows, a.nodata, a.dx, a.xll, a.yll, o);
    r.rs->SetCoreName("core");
    r.g = a; r.what = "version " + std::to_string(seed);
}
// a read with whatever value type holds everything stored
inline bool read_any(MongoGridFs* gfs, const string& name, const Stored& s, bool may_fail, const char* when) {
    bool d = fits<double>(s);
    if (fits<int>(s) && (!d || sim::flip(1, 3))) return read_back<int>(gfs, name, s, may_fail, when);
    if (fits<float>(s) && (!d || sim::flip(1, 3))) return read_back<float>(gfs, name, s, may_fail, when);
    return read_back<double>(gfs, name, s, may_fail, when);
}
#endif
