// Reference model of raster loading: masking, extent handling, layer alignment, on plain full grids.
#ifndef PROPS_RASTER_MODEL_H
#define PROPS_RASTER_MODEL_H
#include "props/raster_common.h"

inline bool is_nd(double v, double nd) { return v == nd; }
// cell of grid g holding the coordinate; false if outside
inline bool locate(const Grid& g, double x, double y, int& r, int& c) {
    double fx = (x - (g.xll - .5 * g.dx)) / g.dx, fy = ((g.yll + (g.rows - .5) * g.dx) - y) / g.dx;
    if (fx < 0 || fy < 0 || fx >= g.cols || fy >= g.rows) return false;
    c = (int) fx; r = (int) fy; return true;
}
inline double xof(const Grid& g, int c) { return g.xll + c * g.dx; }
inline double yof(const Grid& g, int r) { return g.yll + (g.rows - 1 - r) * g.dx; }

struct Load {                  // what a load has to produce
    bool ok = true;
    Grid g;
    vector<char> loose;        // cells whose layers 2.. may be no-data as layer 1 is no-data there
    int srow = 0, scol = 0;    // shift against the mask
};
template <class T> double cast(double v) { return (double) (T) v; }

// layers: one grid per file; values are cast to T; default value as given by the caller (NODATA_VALUE: none)
template <class T> Load model_load(const vector<Grid>& layers, const Grid* mask, bool use_ext, double deflt) {
    Load o; const Grid& a = layers[0];
    int L = (int) layers.size();
    double nd = cast<T>(a.nodata);
    if (deflt == NODATA_VALUE && nd != NODATA_VALUE) deflt = nd;
    if (!mask) {
        o.g = a; o.g.nodata = nd; o.g.lyrs = L; o.g.v.assign(L, vector<double>(a.n(), nd)); o.loose.assign(a.n(), 0);
        for (int i = 0; i < a.n(); i++) o.g.v[0][i] = cast<T>(a.v[0][i]);
    } else {
        o.g = *mask; o.g.nodata = nd; o.g.lyrs = L; o.g.v.assign(L, vector<double>(mask->n(), nd)); o.loose.assign(mask->n(), 0);
        int r0 = mask->rows, r1 = -1, c0 = mask->cols, c1 = -1, inside = 0, matched = 0;
        for (int r = 0; r < mask->rows; r++) for (int c = 0; c < mask->cols; c++) {
            if (is_nd(mask->at(r, c), mask->nodata)) continue;
            int ar, ac;
            if (!locate(a, xof(*mask, c), yof(*mask, r), ar, ac)) { o.loose[(size_t) r * mask->cols + c] = 1; continue; }
            inside++;
            double v = cast<T>(a.at(ar, ac));
            if (v == nd) { v = deflt != nd ? cast<T>(deflt) : nd; }
            else { matched++; r0 = std::min(r0, r); r1 = std::max(r1, r); c0 = std::min(c0, c); c1 = std::max(c1, c); }
            o.g.at(r, c) = v;
            if (v == nd) o.loose[(size_t) r * mask->cols + c] = 1;
        }
        if (!inside || (!matched && !use_ext)) { o.ok = false; return o; }
        if (!use_ext) {
            Grid s = o.g; s.rows = r1 - r0 + 1; s.cols = c1 - c0 + 1; s.xll = xof(*mask, c0); s.yll = yof(*mask, r1);
            s.v.assign(L, vector<double>(s.n(), nd)); vector<char> lo(s.n(), 0);
            for (int r = r0; r <= r1; r++) for (int c = c0; c <= c1; c++) { s.at(r - r0, c - c0) = o.g.at(r, c); lo[(size_t) (r - r0) * s.cols + c - c0] = o.loose[(size_t) r * mask->cols + c]; }
            o.g = s; o.loose = lo; o.srow = r0; o.scol = c0;
        }
    }
    for (int l = 1; l < L; l++) {
        const Grid& b = layers[l]; double bnd = b.nodata;
        for (int r = 0; r < o.g.rows; r++) for (int c = 0; c < o.g.cols; c++) {
            size_t i = (size_t) r * o.g.cols + c;
            if (o.g.v[0][i] == nd && !o.loose[i]) continue;
            int br, bc; double v = nd;
            if (locate(b, xof(o.g, c), yof(o.g, r), br, bc)) { v = cast<T>(b.at(br, bc)); if (v == bnd || v == cast<T>(bnd)) v = nd; }
            o.g.v[l][i] = v;
        }
    }
    return o;
}
// difference of a loaded raster's full-grid view from the model
inline string diff_load(Grid g, const Load& want, bool text) {
    if (g.rows == want.g.rows && g.cols == want.g.cols && g.lyrs == want.g.lyrs)
        for (int l = 1; l < g.lyrs; l++) for (int i = 0; i < g.n(); i++) if (want.loose[i] && g.v[l][i] == want.g.nodata) g.v[l][i] = want.g.v[l][i];
    return diff_grid(g, want.g, text);
}
// a mask over the same area: other extent, other cell size, valid and no-data cells; no cell centre on a cell edge of g
inline Grid gen_mask(const Grid& g, int maxdim = 12) {
    Grid m; m.rows = sim::range(1, maxdim); m.cols = sim::range(1, maxdim); m.nodata = -9999;
    if (sim::flip(1, 2)) { m.rows = g.rows; m.cols = g.cols; }
    int sx = 0, sy = 0;
    if (sim::flip(1, 2)) { sx = sim::range(-3, 3); sy = sim::range(-3, 3); }
    switch (sim::weighted({6, 1, 1})) {
        case 0: m.dx = g.dx; m.xll = g.xll + sx * g.dx; m.yll = g.yll + sy * g.dx; if (sim::flip(1, 4)) { m.xll += .25 * g.dx; m.yll -= .25 * g.dx; } break;
        case 1: m.dx = 3 * g.dx; m.xll = g.xll + (sx + 1) * g.dx; m.yll = g.yll + (sy + 1) * g.dx; break;
        default: m.dx = g.dx / 2; m.xll = g.xll - .25 * g.dx + sx * m.dx; m.yll = g.yll - .25 * g.dx + sy * m.dx; break;
    }
    uint32_t nd = sim::draw(4), pat = sim::draw(3);
    m.v.assign(1, vector<double>(m.n()));
    bool any = false;
    for (int i = 0; i < m.n(); i++) {
        bool no = nd && sim::draw(8) < nd;
        m.v[0][i] = no ? m.nodata : pat == 0 ? 1 : pat == 1 ? 1 + sim::draw(4) : 1 + (i * 3 / m.n());
        any |= !no;
    }
    if (!any) m.v[0][sim::draw((uint32_t) m.n())] = 1;
    return m;
}
struct MaskArg { clsRasterData<int>* rs = nullptr; Grid g; bool use_ext = true; ~MaskArg() { delete rs; } };
#endif
