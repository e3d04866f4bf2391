// Shared pieces of the raster workloads: generated grids, independent readers and writers, full-grid views.
#ifndef PROPS_RASTER_COMMON_H
#define PROPS_RASTER_COMMON_H
#include "props/common.h"
#include "data_raster.hpp"
#include "gdal.h"
#include "cpl_error.h"
#include "cpl_conv.h"
#include <cfloat>
#include <cstdlib>
#include <limits>
#include <memory>
#include <typeinfo>
using namespace ccgl;
using namespace ccgl::data_raster;

inline void CPL_STDCALL gdal_log(CPLErr c, CPLErrorNum n, const char* m) { sim::log("gdal: class %d number %d %.120s", (int) c, (int) n, m); }
inline void raster_init() {
    CPLSetErrorHandler(gdal_log);
    CPLSetConfigOption("GDAL_NUM_THREADS", "1");
    GDALAllRegister();
}

// libtiff can chase a cyclic file directory for ever after a torn directory write or on a damaged file;
// that is below the code under test: such runs are given up (and counted), only while armed
inline void bound_gdal(uint64_t ops = 20000) {
    auto n = std::make_shared<uint64_t>(0);
    simfs::on_op = [n, ops](uint32_t, const string&) { if (++*n > ops) sim::give_up("given-up:libtiff-loop"); };
}
struct Grid {                       // plain full grid; the reference for everything
    int rows = 1, cols = 1, lyrs = 1;
    double dx = 1, xll = 0, yll = 0, nodata = -9999;   // centre of the lower left cell
    vector<vector<double>> v;       // [layer][row*cols+col]
    double at(int r, int c, int l = 0) const { return v[l][(size_t) r * cols + c]; }
    double& at(int r, int c, int l = 0) { return v[l][(size_t) r * cols + c]; }
    int n() const { return rows * cols; }
};
inline bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline string show_num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

// printed form with six significant digits, as a number
inline double six(double d) { char b[64]; snprintf(b, sizeof b, "%.6g", d); return strtod(b, nullptr); }

struct Lim { double lo, hi; bool integral; };
template <class T> Lim lim_of() { return {std::numeric_limits<T>::is_integer ? (double) std::numeric_limits<T>::min() : -FLT_MAX, (double) std::numeric_limits<T>::max(), std::numeric_limits<T>::is_integer}; }

// a value that the type holds exactly
template <class T> double gen_value() {
    Lim l = lim_of<T>();
    switch (sim::weighted({8, 2, 1, 1})) {
        case 0: { double d = sim::draw(100); return d > l.hi ? l.hi : d; }
        case 1: { double d = (double) sim::draw(200) - 100; return d < l.lo ? -d > l.hi ? 1 : -d : d > l.hi ? 1 : d; }
        case 2: if (l.integral) return sim::flip(1, 2) ? (l.hi > 2147483647.0 ? 2147483647.0 : l.hi) : (l.lo < -2147483648.0 ? -2147483647.0 : l.lo);
                return (double) (T) (((double) sim::draw(2000001) - 1000000.) / 1000.);
        default: if (l.integral) return sim::draw(2);
                 { static const double s[] = {0.1, 1e-7, 123456.7, 3.25, 1e10, -0.5, 99999.95}; return (double) (T) s[sim::draw(7)]; }
    }
}
template <class T> double gen_nodata() {
    Lim l = lim_of<T>();
    static const double c[] = {-9999, -9999, 0, -1, 255, -32768, 128};
    double d = c[sim::draw(7)];
    if (d < l.lo || d > l.hi) d = l.hi;
    return d;
}
inline int gen_extent() { return sim::flip(1, 10) ? sim::range(12, 40) : sim::range(1, 9); }
template <class T> Grid gen_grid(int lyrs = 1, int rows = 0, int cols = 0) {
    Grid g;
    g.rows = rows ? rows : gen_extent(); g.cols = cols ? cols : gen_extent(); g.lyrs = lyrs;
    static const double dxs[] = {1, 30, 0.5, 90, 1000}; static const double xs[] = {0, 15, -120.5, 598000, 39542};
    g.dx = dxs[sim::draw(5)]; g.xll = xs[sim::draw(5)]; g.yll = xs[sim::draw(5)];
    g.nodata = gen_nodata<T>();
    uint32_t nd = sim::draw(4);     // how common no-data cells are
    g.v.assign(lyrs, vector<double>(g.n()));
    for (int l = 0; l < lyrs; l++) for (int i = 0; i < g.n(); i++) {
        bool no = nd && sim::draw(8) < nd;
        g.v[l][i] = no ? g.nodata : gen_value<T>();
    }
    return g;
}
// one cell at, or just beside, a limit of the output type
template <class T> void at_limits(Grid& g) {
    static const double lim[] = {0, 255, -128, 127, 65535, -32768, 32767, 4294967295., -2147483648., 2147483647., 18446744073709551615., -9223372036854775808., 9223372036854775807.};
    Lim l = lim_of<T>();
    double v = lim[sim::draw(13)] + ((double) sim::draw(5) - 2) / 2;      // halves are cut off, a whole one may be outside
    if (!l.integral && sim::flip(1, 4)) { static const double s[] = {NAN, INFINITY, -INFINITY}; v = s[sim::draw(3)]; }
    if (l.integral) { v = std::trunc(v); if (v < l.lo || v > l.hi || std::fabs(v) > 9e15) return; }
    if (std::isfinite(v)) v = (double) (T) v;
    g.v[0][sim::draw((uint32_t) g.n())] = v;
}
// independent ASCII grid writer (for input files)
inline string asc_text(const Grid& g, int l = 0, int style = 0) {
    string s; char b[96];
    auto num = [&](double d) { snprintf(b, sizeof b, "%.17g", d); return string(b); };
    const char* eol = (style & 1) ? "\r\n" : "\n";
    bool corner = style & 2, low = style & 4;
    auto key = [&](const char* k) { string r = k; if (low) for (auto& c : r) c = (char) tolower(c); return r + " "; };
    s += key("NCOLS") + std::to_string(g.cols) + eol + key("NROWS") + std::to_string(g.rows) + eol;
    s += key(corner ? "XLLCORNER" : "XLLCENTER") + num(corner ? g.xll - .5 * g.dx : g.xll) + eol + key(corner ? "YLLCORNER" : "YLLCENTER") + num(corner ? g.yll - .5 * g.dx : g.yll) + eol;
    s += key("CELLSIZE") + num(g.dx) + eol + key("NODATA_VALUE") + num(g.nodata) + eol;
    for (int r = 0; r < g.rows; r++) { for (int c = 0; c < g.cols; c++) { s += num(g.at(r, c, l)); if (c + 1 < g.cols || (style & 8)) s += " "; } s += eol; }
    return s;
}
// independent ASCII grid reader; false when the text is not exactly one complete grid
inline bool asc_parse(const string& text, Grid& g, string& why) {
    vector<string> tok; size_t p = 0;
    while (p < text.size()) {
        while (p < text.size() && isspace((unsigned char) text[p])) p++;
        size_t e = p; while (e < text.size() && !isspace((unsigned char) text[e])) e++;
        if (e > p) tok.push_back(text.substr(p, e - p));
        p = e;
    }
    auto num = [](const string& s, double& d) { char* e = nullptr; d = strtod(s.c_str(), &e); return e && !*e && !s.empty(); };
    static const char* keys[] = {"NCOLS", "NROWS", "XLLCENTER", "YLLCENTER", "CELLSIZE", "NODATA_VALUE"};
    double h[6]; bool have[6] = {false}; bool corner[2] = {false, false};
    size_t i = 0;
    while (i + 1 < tok.size() && isalpha((unsigned char) tok[i][0]) && tok[i] != "nan" && tok[i] != "inf") {
        string k = tok[i]; for (auto& c : k) c = (char) toupper(c);
        int f = -1;
        for (int j = 0; j < 6; j++) if (k == keys[j]) f = j;
        if (k == "XLLCORNER") { f = 2; corner[0] = true; } if (k == "YLLCORNER") { f = 3; corner[1] = true; }
        if (f < 0 || have[f]) { why = "header key " + tok[i]; return false; }
        if (!num(tok[i + 1], h[f])) { why = "header value " + tok[i + 1]; return false; }
        have[f] = true; i += 2;
    }
    for (int j = 0; j < 6; j++) if (!have[j]) { why = string("no ") + keys[j]; return false; }
    g.cols = (int) h[0]; g.rows = (int) h[1]; g.lyrs = 1; g.dx = h[4]; g.xll = h[2] + (corner[0] ? .5 * g.dx : 0); g.yll = h[3] + (corner[1] ? .5 * g.dx : 0); g.nodata = h[5];
    size_t need = (size_t) g.rows * g.cols;
    if (tok.size() - i != need) { why = "holds " + std::to_string(tok.size() - i) + " values, needs " + std::to_string(need); return false; }
    g.v.assign(1, vector<double>(need));
    for (size_t k = 0; k < need; k++) if (!num(tok[i + k], g.v[0][k])) { why = "value " + tok[i + k]; return false; }
    return true;
}
inline const char* gdt_name(GDALDataType t) { return GDALGetDataTypeName(t); }
// reads a GeoTIFF with GDAL itself (no faults armed)
inline bool tif_read(const string& path, Grid& g, GDALDataType& t, string& why) {
    GDALDatasetH ds = GDALOpen(path.c_str(), GA_ReadOnly);
    if (!ds) { why = string("not readable: ") + CPLGetLastErrorMsg(); return false; }
    g.rows = GDALGetRasterYSize(ds); g.cols = GDALGetRasterXSize(ds); g.lyrs = GDALGetRasterCount(ds);
    double gt[6] = {0}; GDALGetGeoTransform(ds, gt);
    g.dx = gt[1]; g.xll = gt[0] + .5 * gt[1]; g.yll = gt[3] + (g.rows - .5) * gt[5];
    GDALRasterBandH b = GDALGetRasterBand(ds, 1);
    t = GDALGetRasterDataType(b);
    int has = 0; g.nodata = GDALGetRasterNoDataValue(b, &has);
    if (!has) g.nodata = std::nan("");
    g.v.assign(1, vector<double>((size_t) g.rows * g.cols));
    CPLErr e = CE_None;
    if (t == GDT_Int64 || t == GDT_UInt64) {
        g.nodata = t == GDT_Int64 ? (double) GDALGetRasterNoDataValueAsInt64(b, &has) : (double) GDALGetRasterNoDataValueAsUInt64(b, &has);
        vector<int64_t> raw(g.v[0].size());
        e = GDALRasterIO(b, GF_Read, 0, 0, g.cols, g.rows, raw.data(), g.cols, g.rows, t, 0, 0);
        for (size_t i = 0; i < raw.size(); i++) g.v[0][i] = t == GDT_Int64 ? (double) raw[i] : (double) (uint64_t) raw[i];
    } else e = GDALRasterIO(b, GF_Read, 0, 0, g.cols, g.rows, g.v[0].data(), g.cols, g.rows, GDT_Float64, 0, 0);
    GDALClose(ds);
    if (e != CE_None) { why = string("cells not readable: ") + CPLGetLastErrorMsg(); return false; }
    return true;
}
// writes a GeoTIFF with GDAL itself (no faults armed)
inline void tif_put(const string& path, const Grid& g, GDALDataType t, int l = 0, bool with_nodata = true, char** opts = nullptr, int bands = 1, const char* wkt = nullptr) {
    GDALDatasetH ds = GDALCreate(GDALGetDriverByName("GTiff"), path.c_str(), g.cols, g.rows, bands, t, opts);
    if (!ds) sim::harness_error("cannot create %s: %s", path.c_str(), CPLGetLastErrorMsg());
    double gt[6] = {g.xll - .5 * g.dx, g.dx, 0, g.yll + (g.rows - .5) * g.dx, 0, -g.dx};
    GDALSetGeoTransform(ds, gt);
    GDALRasterBandH b = GDALGetRasterBand(ds, 1);
    if (wkt) GDALSetProjection(ds, wkt);
    if (with_nodata && t == GDT_Int64) GDALSetRasterNoDataValueAsInt64(b, (int64_t) g.nodata);
    else if (with_nodata && t == GDT_UInt64) GDALSetRasterNoDataValueAsUInt64(b, (uint64_t) g.nodata);
    else if (with_nodata) GDALSetRasterNoDataValue(b, g.nodata);
    if (bands > 1) { vector<double> w(g.v[l].rbegin(), g.v[l].rend()); if (GDALRasterIO(GDALGetRasterBand(ds, 2), GF_Write, 0, 0, g.cols, g.rows, w.data(), g.cols, g.rows, GDT_Float64, 0, 0) != CE_None) sim::harness_error("cannot write %s", path.c_str()); }
    if (GDALRasterIO(b, GF_Write, 0, 0, g.cols, g.rows, (void*) g.v[l].data(), g.cols, g.rows, GDT_Float64, 0, 0) != CE_None) sim::harness_error("cannot write %s", path.c_str());
    GDALClose(ds);
}
template <class T> GDALDataType gdt_of() {
    return typeid(T) == typeid(unsigned char) ? GDT_Byte : typeid(T) == typeid(signed char) ? GDT_Int8 : typeid(T) == typeid(short) ? GDT_Int16 : typeid(T) == typeid(unsigned short) ? GDT_UInt16 : typeid(T) == typeid(int) ? GDT_Int32 : typeid(T) == typeid(unsigned) ? GDT_UInt32 : typeid(T) == typeid(float) ? GDT_Float32 : typeid(T) == typeid(double) ? GDT_Float64 : std::is_signed<T>::value ? GDT_Int64 : GDT_UInt64;
}
// difference between what a file holds and what it should hold; empty string if none
inline string diff_asc(const string& path, const Grid& want, int l, bool integral) {
    string text, why; Grid g;
    if (!simfs::get(path, text)) return path + " does not exist";
    if (!asc_parse(text, g, why)) return path + " is not a complete ASCII grid: " + why;
    if (g.rows != want.rows || g.cols != want.cols) return path + " has " + std::to_string(g.rows) + "x" + std::to_string(g.cols) + " cells, not " + std::to_string(want.rows) + "x" + std::to_string(want.cols);
    if (g.xll != six(want.xll) || g.yll != six(want.yll) || g.dx != six(want.dx)) return path + " has another georeference: " + show_num(g.xll) + " " + show_num(g.yll) + " " + show_num(g.dx);
    if (g.nodata != six(want.nodata)) return path + " has no-data " + show_num(g.nodata) + ", not " + show_num(want.nodata);
    for (int i = 0; i < want.n(); i++) {
        double w = want.v[l][i]; double p = integral ? w : six(w);
        if (!same_num(g.v[0][i], p)) return path + " cell " + std::to_string(i) + " is " + show_num(g.v[0][i]) + ", not " + show_num(p);
    }
    return "";
}
inline string diff_tif(const string& path, const Grid& want, int l, GDALDataType t) {
    Grid g; GDALDataType ft; string why;
    if (!simfs::exists(path)) return path + " does not exist";
    if (!tif_read(path, g, ft, why)) return path + " " + why;
    if (g.rows != want.rows || g.cols != want.cols) return path + " has " + std::to_string(g.rows) + "x" + std::to_string(g.cols) + " cells, not " + std::to_string(want.rows) + "x" + std::to_string(want.cols);
    double tol = 1e-9 * (1 + std::fabs(want.xll) + std::fabs(want.yll));
    if (std::fabs(g.xll - want.xll) > tol || std::fabs(g.yll - want.yll) > tol || g.dx != want.dx) return path + " has another georeference: " + show_num(g.xll) + " " + show_num(g.yll) + " " + show_num(g.dx);
    if (ft != t) return path + " stores " + gdt_name(ft) + ", not " + gdt_name(t);
    if (!same_num(g.nodata, want.nodata)) return path + " has no-data " + show_num(g.nodata) + ", not " + show_num(want.nodata);
    for (int i = 0; i < want.n(); i++) if (!same_num(g.v[0][i], want.v[l][i])) return path + " cell " + std::to_string(i) + " is " + show_num(g.v[0][i]) + ", not " + show_num(want.v[l][i]);
    return "";
}
// full-grid view of a raster object through its public cell access
template <class R> Grid view(R* rs) {
    Grid g;
    g.rows = rs->GetRows(); g.cols = rs->GetCols(); g.lyrs = rs->GetLayers(); g.dx = rs->GetCellWidth(); g.xll = rs->GetXllCenter(); g.yll = rs->GetYllCenter(); g.nodata = (double) rs->GetNoDataValue();
    if (g.rows <= 0 || g.cols <= 0 || g.lyrs <= 0 || (int64_t) g.rows * g.cols > 100000) sim::violate("bad-dimensions", "loaded raster reports %d rows, %d columns, %d layers", g.rows, g.cols, g.lyrs);
    g.v.assign(g.lyrs, vector<double>(g.n()));
    for (int l = 0; l < g.lyrs; l++) for (int r = 0; r < g.rows; r++) for (int c = 0; c < g.cols; c++) g.at(r, c, l) = (double) rs->GetValue(r, c, l + 1);
    return g;
}
inline string diff_grid(const Grid& g, const Grid& want, bool text) {
    char b[256];
    if (g.rows != want.rows || g.cols != want.cols || g.lyrs != want.lyrs) { snprintf(b, sizeof b, "%dx%d cells, %d layers instead of %dx%d, %d", g.rows, g.cols, g.lyrs, want.rows, want.cols, want.lyrs); return b; }
    double tol = 1e-9 * (1 + std::fabs(want.xll) + std::fabs(want.yll));
    if (std::fabs(g.xll - want.xll) > tol || std::fabs(g.yll - want.yll) > tol || std::fabs(g.dx - want.dx) > tol) { snprintf(b, sizeof b, "georeference %.17g %.17g %.17g instead of %.17g %.17g %.17g", g.xll, g.yll, g.dx, want.xll, want.yll, want.dx); return b; }
    if (!same_num(g.nodata, want.nodata)) { snprintf(b, sizeof b, "no-data value %.17g instead of %.17g", g.nodata, want.nodata); return b; }
    for (int l = 0; l < g.lyrs; l++) for (int i = 0; i < g.n(); i++) if (!same_num(g.v[l][i], want.v[l][i])) {
        if (text && six(want.v[l][i]) == six(g.v[l][i])) continue;
        snprintf(b, sizeof b, "layer %d row %d column %d is %.17g instead of %.17g", l + 1, i / g.cols, i % g.cols, g.v[l][i], want.v[l][i]); return b;
    }
    return "";
}
template <class T> T* to_array(const Grid& g, int l = 0) { T* a = new T[g.n()]; for (int i = 0; i < g.n(); i++) a[i] = (T) g.v[l][i]; return a; }
template <class T> T** to_array2d(const Grid& g) {
    T** a = nullptr; if (!utils_array::Initialize2DArray(g.n(), g.lyrs, a, T(0))) sim::harness_error("no array");
    for (int i = 0; i < g.n(); i++) for (int l = 0; l < g.lyrs; l++) a[i][l] = (T) g.v[l][i];
    return a;
}
inline STRDBL_MAP header_of(const Grid& g) {
    STRDBL_MAP h; h["NCOLS"] = g.cols; h["NROWS"] = g.rows; h["XLLCENTER"] = g.xll; h["YLLCENTER"] = g.yll; h["CELLSIZE"] = g.dx; h["NODATA_VALUE"] = g.nodata; h["LAYERS"] = 1; h["CELLSNUM"] = g.n();
    return h;
}
#endif
