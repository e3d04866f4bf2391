// Generated raster writes: every output form the library offers, with the grid the files must hold afterwards.
#ifndef PROPS_WRITE_CASES_H
#define PROPS_WRITE_CASES_H
#include "props/raster_common.h"
struct Out { string path; bool asc; int lyr; };
struct Case {
    std::function<bool(const string&)> write;
    std::function<vector<Out>(const string&)> outs;
    Grid want;                    // expected cells
    Grid want_tif;                // expected cells of a GeoTIFF (converted type)
    GDALDataType gdt = GDT_Float32;
    bool integral = false, legal = true, makes_dir = true;
    string what;
    std::function<void()> done = []() {};
};
static string stem_of(const string& p) { return p.substr(0, p.rfind('.')); }
static string ext_of(const string& p) { return p.substr(p.rfind('.') + 1); }
static bool is_asc(const string& p) { string e = ext_of(p); for (auto& c : e) c = (char) toupper(c); return e == "ASC"; }
static string tif_name(const string& p) { string e = ext_of(p); for (auto& c : e) c = (char) toupper(c); return e == "TIF" ? p : stem_of(p) + ".tif"; }

// conversion rules of the documented output types: a no-data value outside the type's range is
// replaced by the type's own, any other cell outside the range makes the write illegal
static bool convert(Grid& g, RasterDataType t) {
    double lo, hi, nd; bool flt = false;
    switch (t) {
        case RDT_UInt8: lo = 0; hi = 255; nd = 255; break;
        case RDT_Int8: lo = -128; hi = 127; nd = -128; break;
        case RDT_UInt16: lo = 0; hi = 65535; nd = 65535; break;
        case RDT_Int16: lo = -32768; hi = 32767; nd = -32768; break;
        case RDT_UInt32: lo = 0; hi = 4294967295.; nd = 4294967295.; break;
        case RDT_Int32: lo = -2147483648.; hi = 2147483647.; nd = -2147483648.; break;
        case RDT_UInt64: lo = 0; hi = 18446744073709551615.; nd = 18446744073709551615.; break;
        case RDT_Int64: lo = -9223372036854775808.; hi = 9223372036854775807.; nd = -9223372036854775808.; break;
        case RDT_Float: lo = -FLT_MAX; hi = FLT_MAX; nd = 0; flt = true; break;
        default: lo = -DBL_MAX; hi = DBL_MAX; nd = 0; flt = true; break;
    }
    double old = g.nodata; bool change = !flt && (old < lo || old > hi || (hi > 1e18 && old == hi));
    if (change) g.nodata = nd;
    for (auto& l : g.v) for (auto& x : l) {
        if (change && x == old) { x = nd; continue; }
        if (!flt && !(x >= lo && x <= hi && (hi < 1e18 || x < hi))) return false;   // the double of a 64-bit maximum is one more than it
        x = t == RDT_Float ? (double) (float) x : t == RDT_Double ? x : std::trunc(x);
    }
    return true;
}
static const RasterDataType kTypes[] = {RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32, RDT_Int32, RDT_Float, RDT_Double, RDT_UInt64, RDT_Int64};
static const GDALDataType kGdts[] = {GDT_Byte, GDT_Int8, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_Float32, GDT_Float64, GDT_UInt64, GDT_Int64};

template <class T> Case free_case() {
    Case c; c.want = gen_grid<T>(); c.want_tif = c.want; c.gdt = gdt_of<T>(); c.integral = std::numeric_limits<T>::is_integer;
    STRING_MAP opts; opts["SRS"] = "";
    if (sim::flip(1, 3)) { int k = (int) sim::draw(10); if (sim::flip(1, 3)) { at_limits<T>(c.want); c.want_tif = c.want; } opts["DATATYPE_OUT"] = RasterDataTypeToString(kTypes[k]); c.gdt = kGdts[k]; c.legal = convert(c.want_tif, kTypes[k]); if (kGdts[k] == gdt_of<T>()) { c.want_tif = c.want; c.legal = true; } }
    else if (sim::flip(1, 12)) { at_limits<T>(c.want); c.want_tif = c.want; }
    auto arr = std::make_shared<vector<T>>(); for (double d : c.want.v[0]) arr->push_back((T) d);
    auto h = header_of(c.want);
    c.what = string("free<") + typeid(T).name() + ">";
    c.write = [arr, h, opts](const string& p) { return WriteRasterToFile(p, h, opts, arr->data()); };
    c.outs = [](const string& p) { return vector<Out>{{is_asc(p) ? p : tif_name(p), is_asc(p), 0}}; };
    return c;
}
template <class T> Case class_case() {
    typedef clsRasterData<T, int> R;
    Case c; int lyrs = (int) sim::weighted({4, 1, 1}) + 1; bool two = lyrs > 1;
    R* rs = nullptr;
    STRING_MAP opts; opts["SRS"] = "";
    int k = -1;
    if (sim::flip(1, 4)) { k = (int) sim::draw(10); opts["DATATYPE_OUT"] = RasterDataTypeToString(kTypes[k]); }
    bool masked = sim::flip(1, 3), calc = sim::flip(1, 2);
    Grid g = gen_grid<T>(lyrs);
    if (masked) {
        auto* ms = new clsRasterData<int>();
        Grid m = gen_grid<int>(); m.dx = g.dx; m.nodata = -9999;
        m.xll = g.xll + g.dx * sim::range(-2, 2); m.yll = g.yll + g.dx * sim::range(-2, 2);
        for (auto& x : m.v[0]) x = sim::flip(1, 4) ? -9999 : 1;
        m.v[0][0] = 1;
        simfs::put("/sim/in/mask.asc", asc_text(m));
        vector<string> fs;
        for (int l = 0; l < lyrs; l++) { fs.push_back("/sim/in/g_" + std::to_string(l + 1) + ".tif"); tif_put(fs.back(), g, gdt_of<T>(), l); }
        bool ok = false;
        guarded("load", [&]() { ok = ms->ReadFromFile("/sim/in/mask.asc"); rs = new R(); if (ok) ok = two ? rs->ReadFromFiles(fs, calc, ms, sim::flip(1, 2), NODATA_VALUE, opts) : rs->ReadFromFile(fs[0], calc, ms, sim::flip(1, 2), NODATA_VALUE, opts); });
        if (!ok) { delete rs; delete ms; return class_case<T>(); }
        c.done = [rs, ms]() { delete rs; delete ms; };
    } else {
        guarded("construct", [&]() {
            if (two) rs = new R(to_array2d<T>(g), g.cols, g.rows, lyrs, (T) g.nodata, g.dx, g.xll, g.yll, opts);
            else rs = new R(to_array<T>(g), g.cols, g.rows, (T) g.nodata, g.dx, g.xll, g.yll, opts);
            if (calc) rs->SetCalcPositions();
        });
        c.done = [rs]() { delete rs; };
    }
    c.want = view(rs); c.want_tif = c.want; c.integral = std::numeric_limits<T>::is_integer; c.gdt = gdt_of<T>();
    if (k >= 0) { c.gdt = kGdts[k]; if (kGdts[k] != gdt_of<T>()) c.legal = convert(c.want_tif, kTypes[k]); }
    c.what = string("class<") + typeid(T).name() + "> layers " + std::to_string(lyrs) + (masked ? " masked" : "") + (calc ? " positions" : "");
    c.write = [rs](const string& p) { return rs->OutputToFile(p); };
    c.makes_dir = false;
    c.outs = [two, lyrs](const string& p) {
        vector<Out> o;
        bool a = is_asc(p); string q = a ? p : tif_name(p);
        if (!two) o.push_back({q, a, 0});
        else for (int l = 0; l < lyrs; l++) o.push_back({stem_of(q) + "_" + std::to_string(a ? l : l + 1) + "." + ext_of(q), a, l});
        return o;
    };
    return c;
}
static Case make_case() {
    switch (sim::draw(11)) {
        case 0: return free_case<float>();
        case 1: return class_case<float>();
        case 2: return class_case<int>();
        case 3: return class_case<double>();
        case 4: return free_case<int>();
        case 5: return free_case<double>();
        case 6: return free_case<unsigned char>();
        case 7: return free_case<short>();
        case 8: return free_case<signed char>();
        case 9: return free_case<unsigned short>();
        default: return free_case<vint64_t>();
    }
}
static const char* const kOutNames[] = {"/sim/out/r.asc", "/sim/out/r.tif", "/sim/out/a_b.ASC", "/sim/out/r.TIF", "/sim/out/r.img", "/sim/out/new/r.asc", "/sim/out/new/r.tif"};
#endif
