// Histories of raster objects against plain full grids: building, loading, masking, copying, changing, deleting.
#ifndef PROPS_LIFECYCLE_H
#define PROPS_LIFECYCLE_H
#include "props/raster_model.h"
#include <map>

template <class T> struct Obj {
    typedef clsRasterData<T, int> R;
    R* rs = nullptr;
    string name;
    Grid g;                          // all cells, no-data where nothing is stored
    bool two = false;                // 2D raster
    vector<char> pos;                // cell has storage (observed, then required to stay)
    Obj<int>* mask = nullptr;        // mask whose positions may be referred to
    bool use_ext = false;
    double deflt = NODATA_VALUE;
    bool fresh_stats = true;         // nothing changed since statistics were last updated
    bool stats_known = false;
    bool has_subs = false;
    bool dead = false;               // a failed load left nothing
    int users = 0;                   // rasters that may refer to this one as their mask
    vector<char> loose;              // layers 2.. open at these cells until first looked at
};
static const double kTol = 1e-9;
template <class T> struct Life {
    typedef Obj<T> O; typedef Obj<int> M;
    vector<O*> rs; vector<M*> ms;
    int made = 0, files = 0;
    bool faults = true, nested = false, lookups = false, bounded = true;
    string dir = "/sim";

    ~Life() {}
    // ---------------------------------------------------------------- checking
    template <class U> void look(Obj<U>& o, const char* when, const vector<char>* allowed_extra = nullptr) {
        auto* r = o.rs; const Grid& g = o.g;
        guarded("look", [&]() {
            if (o.dead) { if (r->ValidateRasterData()) sim::violate("undead", "%s: %s reports valid data after its load had failed", when, o.name.c_str()); return; }
            if (!r->ValidateRasterData()) {
                for (double v : g.v[0]) if (v != g.nodata) sim::violate("data-lost", "%s: %s reports no data", when, o.name.c_str());
                return;                                        // no valid cell, positions calculated: nothing stored
            }
            if (r->GetRows() != g.rows || r->GetCols() != g.cols || r->GetLayers() != g.lyrs) sim::violate("dimensions", "%s: %s has %d rows, %d columns, %d layers instead of %d, %d, %d", when, o.name.c_str(), r->GetRows(), r->GetCols(), r->GetLayers(), g.rows, g.cols, g.lyrs);
            if (r->Is2DRaster() != o.two) sim::violate("kind", "%s: %s 2D: %d", when, o.name.c_str(), r->Is2DRaster());
            double tol = 1e-9 * (1 + std::fabs(g.xll) + std::fabs(g.yll));
            if (std::fabs(r->GetXllCenter() - g.xll) > tol || std::fabs(r->GetYllCenter() - g.yll) > tol || std::fabs(r->GetCellWidth() - g.dx) > tol) sim::violate("georeference", "%s: %s lies at %.17g %.17g (%.17g) instead of %.17g %.17g (%.17g)", when, o.name.c_str(), r->GetXllCenter(), r->GetYllCenter(), r->GetCellWidth(), g.xll, g.yll, g.dx);
            auto& h = r->GetRasterHeader();
            if (h.at(HEADER_RS_NCOLS) != g.cols || h.at(HEADER_RS_NROWS) != g.rows || h.at(HEADER_RS_LAYERS) != g.lyrs || h.at(HEADER_RS_NODATA) != g.nodata || (double) r->GetNoDataValue() != g.nodata) sim::violate("header", "%s: header of %s: %g columns, %g rows, %g layers, no-data %.17g (%.17g) instead of %d, %d, %d, %.17g", when, o.name.c_str(), h.at(HEADER_RS_NCOLS), h.at(HEADER_RS_NROWS), h.at(HEADER_RS_LAYERS), h.at(HEADER_RS_NODATA), (double) r->GetNoDataValue(), g.cols, g.rows, g.lyrs, g.nodata);
            int n = r->GetCellNumber();
            if (h.at(HEADER_RS_CELLSNUM) != n || r->GetDataLength() != n * g.lyrs) sim::violate("counts", "%s: %s holds %d cells, header %g, data length %d", when, o.name.c_str(), n, h.at(HEADER_RS_CELLSNUM), r->GetDataLength());
            vector<char> got(g.n(), 0); int stored = 0, last = -1;
            U* row_values = nullptr;
            for (int i = 0; i < g.n(); i++) {
                int y = i / g.cols, x = i % g.cols;
                int p = r->GetPosition(y, x);
                if (p < -1 || p >= n) sim::violate("position", "%s: %s row %d column %d is at position %d of %d", when, o.name.c_str(), y, x, p, n);
                int q = r->GetPosition(g.xll + x * g.dx, g.yll + (g.rows - 1 - y) * g.dx);
                if (q != p) sim::violate("position-xy", "%s: %s row %d column %d is at position %d, by coordinate %d", when, o.name.c_str(), y, x, p, q);
                auto rc = r->GetPositionByCoordinate(g.xll + x * g.dx, g.yll + (g.rows - 1 - y) * g.dx);
                auto xy = r->GetCoordinateByRowCol(y, x);
                if (rc.first != y || rc.second != x || std::fabs(xy.first - (g.xll + x * g.dx)) > tol || std::fabs(xy.second - (g.yll + (g.rows - 1 - y) * g.dx)) > tol) sim::violate("coordinates", "%s: %s row %d column %d <-> %d %d, %.17g %.17g", when, o.name.c_str(), y, x, rc.first, rc.second, xy.first, xy.second);
                if (p >= 0) { got[i] = 1; stored++; if (p <= last) sim::violate("position-order", "%s: %s position %d after %d", when, o.name.c_str(), p, last); last = p; }
                r->GetValue(y, x, row_values);
                if (!row_values) sim::violate("cells:all-layers", "%s: %s row %d column %d cannot be read", when, o.name.c_str(), y, x);
                for (int l = 0; l < g.lyrs; l++) {
                    double v = (double) r->GetValue(y, x, l + 1), w = g.at(y, x, l);
                    if (l && !o.loose.empty() && o.loose[i] && v == g.nodata) { o.g.at(y, x, l) = w = g.nodata; }
                    if (!same_num(v, w)) sim::violate("cells", "%s: %s layer %d row %d column %d is %.17g instead of %.17g", when, o.name.c_str(), l + 1, y, x, v, w);
                    if (!same_num((double) row_values[l], w)) sim::violate("cells:all-layers", "%s: %s layer %d row %d column %d is %.17g instead of %.17g", when, o.name.c_str(), l + 1, y, x, (double) row_values[l], w);
                    if (r->IsNoData(y, x, l + 1) != (w == g.nodata)) sim::violate("cells:no-data", "%s: %s layer %d row %d column %d no-data: %d", when, o.name.c_str(), l + 1, y, x, r->IsNoData(y, x, l + 1));
                    if (p >= 0 && !same_num((double) r->GetValueByIndex(p, l + 1), w)) sim::violate("cells:index", "%s: %s layer %d position %d is %.17g instead of %.17g", when, o.name.c_str(), l + 1, p, (double) r->GetValueByIndex(p, l + 1), w);
                    if (p < 0 && w != g.nodata) sim::violate("cell-lost", "%s: %s layer %d row %d column %d has no position", when, o.name.c_str(), l + 1, y, x);
                }
            }
            if (row_values) utils_array::Release1DArray(row_values);
            o.loose.clear();
            if (stored != n) sim::violate("counts:positions", "%s: %s holds %d cells, %d have positions", when, o.name.c_str(), n, stored);
            if (!o.pos.empty() && got != o.pos) sim::violate("positions-changed", "%s: other cells of %s have positions than before", when, o.name.c_str());
            o.pos = got;
            // outside
            int bad[][2] = {{-1, 0}, {0, -1}, {g.rows, 0}, {0, g.cols}, {-7, -7}};
            for (auto& b : bad) if (r->GetPosition(b[0], b[1]) != -2 || (double) r->GetValue(b[0], b[1]) != g.nodata) sim::violate("outside", "%s: %s row %d column %d is at %d with value %g", when, o.name.c_str(), b[0], b[1], r->GetPosition(b[0], b[1]), (double) r->GetValue(b[0], b[1]));
            double far[][2] = {{g.xll - g.dx, g.yll}, {g.xll, g.yll - g.dx}, {g.xll + g.cols * g.dx, g.yll}, {g.xll, g.yll + g.rows * g.dx}, {1e30, -1e30}};
            for (auto& f : far) { auto rc = r->GetPositionByCoordinate(f[0], f[1]); if (r->GetPosition(f[0], f[1]) != -2 || rc.first != -1 || rc.second != -1) sim::violate("outside-xy", "%s: %s coordinate %g %g is at %d (%d %d)", when, o.name.c_str(), f[0], f[1], r->GetPosition(f[0], f[1]), rc.first, rc.second); }
            if ((double) r->GetValue(0, 0, g.lyrs + 1) != g.nodata || (double) r->GetValue(0, 0, 0) != g.nodata || (double) r->GetValueByIndex(n) != g.nodata || (double) r->GetValueByIndex(-1) != g.nodata) sim::violate("outside-layer", "%s: %s has a value in a layer or position it lacks", when, o.name.c_str());
            // bulk access
            int bn = -1, bl = -1; U* d1 = nullptr; U** d2 = nullptr;
            bool k1 = r->GetRasterData(&bn, &d1), k2 = r->Get2DRasterData(&bn, &bl, &d2);
            if (k1 == o.two || k2 != o.two || (o.two && (bn != n || bl != g.lyrs || d2 != r->Get2DRasterDataPointer())) || (!o.two && d1 != r->GetRasterDataPointer())) sim::violate("bulk", "%s: bulk access to %s: %d %d, %d cells, %d layers", when, o.name.c_str(), k1, k2, bn, bl);
            // subsets stay within the raster
            vector<char> seen(n, 0);
            for (auto& kv : r->GetSubset()) {
                auto* s = kv.second;
                if (s->g_srow < 0 || s->g_scol < 0 || s->g_erow >= g.rows || s->g_ecol >= g.cols) sim::violate("subset-extent", "%s: subset %d of %s covers rows %d-%d, columns %d-%d", when, kv.first, o.name.c_str(), s->g_srow, s->g_erow, s->g_scol, s->g_ecol);
                for (int k = 0; k < s->n_cells; k++) {
                    if (s->global_[k] < 0 || s->global_[k] >= n) sim::violate("subset-cell", "%s: subset %d of %s refers to cell %d of %d", when, kv.first, o.name.c_str(), s->global_[k], n);
                    if (seen[s->global_[k]]++) sim::violate("subset-twice", "%s: cell %d of %s is in two subsets", when, s->global_[k], o.name.c_str());
                    int y = s->local_pos_[k][0] + s->g_srow, x = s->local_pos_[k][1] + s->g_scol;
                    if (r->GetPosition(y, x) != s->global_[k]) sim::violate("subset-position", "%s: subset %d of %s says cell %d is at row %d column %d, the raster %d", when, kv.first, o.name.c_str(), s->global_[k], y, x, r->GetPosition(y, x));
                }
            }
            if (o.has_subs != !r->GetSubset().empty()) sim::violate("subsets", "%s: %s has %zu subsets", when, o.name.c_str(), r->GetSubset().size());
            if (o.stats_known && o.fresh_stats) statistics(o, when);
        });
    }
    template <class U> void statistics(Obj<U>& o, const char* when) {
        auto* r = o.rs; const Grid& g = o.g;
        for (int l = 0; l < g.lyrs; l++) {
            double n = 0, mx = 0, mn = 0; long double sum = 0;
            for (int i = 0; i < g.n(); i++) { double v = g.v[l][i]; if (v == g.nodata) continue; if (!n || v > mx) mx = v; if (!n || v < mn) mn = v; n++; sum += v; }
            long double mean = n ? sum / n : 0, var = 0;
            for (int i = 0; i < g.n(); i++) if (g.v[l][i] != g.nodata) var += (g.v[l][i] - mean) * (g.v[l][i] - mean);
            double sd = n ? (double) sqrtl(var / n) : 0;
            double scale = std::max(std::fabs(mx), std::fabs(mn));
            auto eq = [&](const char* what, double got, double want, double tol) {
                double arr = got;
                if (o.two) { int k = 0; double* a = nullptr; r->GetStatistics(what, &k, &a); if (!a || k != g.lyrs) sim::violate("statistics:array", "%s: %s of %s for all layers: %d", when, what, o.name.c_str(), k); arr = a[l]; }
                if (!(std::fabs(got - want) <= tol) || !same_num(arr, got)) sim::violate("statistics", "%s: %s of layer %d of %s is %.17g (%.17g) instead of %.17g", when, what, l + 1, o.name.c_str(), got, arr, want);
            };
            eq(STATS_RS_VALIDNUM, r->GetValidNumber(l + 1), n, 0);
            if (!n) continue;
            eq(STATS_RS_MAX, r->GetMaximum(l + 1), mx, 0); eq(STATS_RS_MIN, r->GetMinimum(l + 1), mn, 0);
            eq(STATS_RS_RANGE, r->GetRange(l + 1), mx - mn, scale * kTol); eq(STATS_RS_MEAN, r->GetAverage(l + 1), (double) mean, scale * kTol);
            eq(STATS_RS_STD, r->GetStd(l + 1), sd, scale * 1e-7);
        }
    }
    // ---------------------------------------------------------------- model of masking an object
    // the cells a mask selects: those with storage once its positions are calculated
    vector<char> selected(M& m) {
        if (m.rs->PositionsCalculated()) return m.pos;
        vector<char> p(m.g.n(), 0);
        for (int i = 0; i < m.g.n(); i++) p[i] = m.g.v[0][i] != m.g.nodata;
        return p;
    }
    // using a mask may have calculated its positions
    void settle(M& m, bool had) {
        if (had || !m.rs->PositionsCalculated()) return;
        m.pos.assign(m.g.n(), 0);
        for (int i = 0; i < m.g.n(); i++) { if (m.g.v[0][i] != m.g.nodata) m.pos[i] = 1; else for (int l = 1; l < m.g.lyrs; l++) { if (m.g.v[l][i] != m.g.nodata) m.fresh_stats = false; m.g.v[l][i] = m.g.nodata; } }
    }
    Grid mask_grid(M& m) { Grid k = m.g; k.lyrs = 1; k.v.assign(1, vector<double>(m.g.n(), -9999)); k.nodata = -9999; auto p = selected(m); for (int i = 0; i < k.n(); i++) if (p[i]) k.v[0][i] = 1; return k; }
    // cells stored after masking: all, the valid ones, or those of the mask
    template <class U> void adopt(Obj<U>& o, M* m, const char* when) {
        o.pos.clear();
        for (size_t i = 0; i < o.g.v[0].size(); i++) if (o.g.v[0][i] == o.g.nodata && (o.loose.empty() || !o.loose[i])) for (int l = 1; l < o.g.lyrs; l++) if (o.rs->GetPosition((int) i / o.g.cols, (int) i % o.g.cols) < 0) o.g.v[l][i] = o.g.nodata;
        look(o, when);
        if (!o.rs->ValidateRasterData()) { o.pos.assign(o.g.n(), 0); return; }
        bool all = true, valid = true, same = m && m->g.n() == o.g.n();
        for (int i = 0; i < o.g.n(); i++) { all &= o.pos[i]; bool v = o.g.v[0][i] != o.g.nodata; valid &= v == (bool) o.pos[i]; if (same) same = o.pos[i] == m->pos[i]; }
        if (!o.rs->PositionsCalculated() ? !all : !(valid || same)) sim::violate("stored-cells", "%s: %s (positions calculated: %d) stores other cells than the valid ones or its mask's", when, o.name.c_str(), o.rs->PositionsCalculated());
    }
    template <class U> void refer(Obj<U>& o, M* m) {        // does it refer to the mask?
        M* now = m && (void*) o.rs->GetMask() == (void*) m->rs ? m : nullptr;
        if (o.mask == now) return;
        if (o.mask) o.mask->users--;
        o.mask = now; if (now) now->users++;
    }
    // ---------------------------------------------------------------- operations
    template <class U> string put_file(const Grid& g, int l) {
        bool asc = sim::flip(1, 2);
        string p = dir + "/in/f" + std::to_string(++files) + "_" + std::to_string(l + 1) + (asc ? ".asc" : ".tif");
        simfs::mkdirs(dir + "/in");
        if (asc) simfs::put(p, asc_text(g, l, (int) sim::draw(16))); else { Grid one = g; one.v[0] = g.v[l]; tif_put(p, one, gdt_of<U>(), 0); }
        return p;
    }
    template <class U> Grid gen_like(int lyrs) {
        Grid g;
        if (sim::flip(2, 3) && !ms.empty()) { M* m = sim::pick(ms); if (!m->dead && m->g.rows <= 30 && m->g.cols <= 30) { g = gen_grid<U>(lyrs, m->g.rows, m->g.cols); g.dx = m->g.dx; g.xll = m->g.xll; g.yll = m->g.yll; if (sim::flip(1, 3)) { g.xll += sim::range(-2, 2) * g.dx; g.yll += sim::range(-2, 2) * g.dx; } if (sim::flip(1, 4)) { Grid h = gen_grid<U>(lyrs); h.dx = g.dx; h.xll = g.xll; h.yll = g.yll; g = h; } return g; } }
        return gen_grid<U>(lyrs);
    }
    M* any_mask(Obj<int>* not_this = nullptr) {
        vector<M*> c; for (auto* m : ms) if (m != not_this && !m->dead && m->rs->ValidateRasterData() && (nested || !m->mask) && m->name != "") c.push_back(m);
        return c.empty() ? nullptr : sim::pick(c);
    }
    // load from files into a new or an existing object
    template <class U> void load(Obj<U>& o, M* m) {
        int L = sim::flip(1, 3) ? sim::range(2, 3) : 1;
        Grid base = gen_like<U>(L);
        vector<Grid> lay; vector<string> fs;
        for (int l = 0; l < L; l++) { Grid x = base; x.lyrs = 1; x.v.assign(1, base.v[l]); fs.push_back(put_file<U>(x, 0)); lay.push_back(x); }
        bool calc = sim::flip(1, 2), ext = sim::flip(1, 2); double d = sim::flip(1, 5) ? 3 : NODATA_VALUE;
        Grid mg; bool mhad = m && m->rs->PositionsCalculated(); if (m) mg = mask_grid(*m);
        Load want = model_load<U>(lay, m ? &mg : nullptr, ext, d);
        vector<simfs::Rule> rules;
        if (faults && sim::flip(1, 4)) { rules.push_back(draw_rule({{simfs::READ, {EIO}}, {simfs::READ, {-1}}, {simfs::OPEN_R, {EACCES, ENOENT}}}, 8)); rules.back().under = sim::pick(fs); }
        bool existing = o.rs != nullptr, was = existing && !o.dead;
        uint64_t f0 = simfs::fault_count; bool ok = false;
        sim::log("%s: load %d layers %dx%d mask %s calc %d ext %d default %g -> %d", o.name.c_str(), L, base.rows, base.cols, m ? m->name.c_str() : "-", calc, ext, d, want.ok);
        simfs::arm(rules); if (!rules.empty() && bounded) bound_gdal();
        auto* mr = m ? m->rs : nullptr;
        guarded("load", [&]() {
            if (!existing) switch (sim::draw(3)) {
                case 0: o.rs = L == 1 ? new clsRasterData<U, int>(fs[0], calc, mr, ext, d) : new clsRasterData<U, int>(fs, calc, mr, ext, d); ok = o.rs->ValidateRasterData(); break;
                case 1: o.rs = L == 1 ? clsRasterData<U, int>::Init(fs[0], calc, mr, ext, d) : clsRasterData<U, int>::Init(fs, calc, mr, ext, d); ok = o.rs != nullptr; break;
                default: o.rs = new clsRasterData<U, int>(L > 1); ok = L == 1 ? o.rs->ReadFromFile(fs[0], calc, mr, ext, d) : o.rs->ReadFromFiles(fs, calc, mr, ext, d);
            }
            else ok = L == 1 ? o.rs->ReadFromFile(fs[0], calc, mr, ext, d) : o.rs->ReadFromFiles(fs, calc, mr, ext, d);
        });
        simfs::disarm(); if (bounded) simfs::on_op = nullptr;
        if (m) settle(*m, mhad);
        bool fired = simfs::fault_count != f0, any = false;
        if (want.ok) for (double v : want.g.v[0]) any |= v != want.g.nodata;
        if (m && sim::flip(1, 3)) look(*m, "after being used as a mask");
        if (!o.rs) { if (!fired && want.ok && any) sim::violate("refused", "%s was not loaded", o.name.c_str()); return; }
        if (!ok) {
            if (!fired && want.ok && any) sim::violate("refused", "%s was not loaded", o.name.c_str());
            if (was && o.rs->ValidateRasterData()) { if (!fired) sim::violate("half-loaded", "failed load of %s left data", o.name.c_str()); look(o, "after a refused load"); return; }
            o.dead = true; o.has_subs = false; o.stats_known = false; refer(o, m); look(o, "after a failed load"); return;
        }
        if (!want.ok) sim::violate("accepted-empty", "%s was loaded although no cell of the mask has a value", o.name.c_str());
        o.dead = false; o.g = want.g; o.loose = want.loose; o.two = L > 1; o.deflt = d == NODATA_VALUE && want.g.nodata != NODATA_VALUE ? want.g.nodata : d; o.use_ext = m && ext;
        o.fresh_stats = true; o.stats_known = false; o.has_subs = !o.rs->GetSubset().empty();
        refer(o, m);
        if (!m && !calc) o.pos.assign(o.g.n(), 1); else o.pos.clear();
        adopt(o, m, "after loading");
    }
    template <class U> void build(Obj<U>& o) {
        int L = sim::flip(1, 2) ? 1 : sim::range(1, 4); bool two = L > 1 || sim::flip(1, 5);
        Grid g = gen_like<U>(L); o.two = two; o.g = g;
        sim::log("%s: build %dx%d, %d layers", o.name.c_str(), g.rows, g.cols, L);
        guarded("build", [&]() {
            STRING_MAP opts; opts["DESC"] = "made by hand";
            if (two) { U** a = to_array2d<U>(g); o.rs = sim::flip(1, 2) ? new clsRasterData<U, int>(a, g.cols, g.rows, L, (U) g.nodata, g.dx, g.xll, g.yll, opts) : new clsRasterData<U, int>(a, g.cols, g.rows, L, (U) g.nodata, g.dx, g.xll, g.yll, string("srs text")); }
            else { U* a = to_array<U>(g); o.rs = sim::flip(1, 2) ? new clsRasterData<U, int>(a, g.cols, g.rows, (U) g.nodata, g.dx, g.xll, g.yll, opts) : new clsRasterData<U, int>(a, g.cols, g.rows, (U) g.nodata, g.dx, g.xll, g.yll, string("srs text")); }
        });
        o.pos.assign(g.n(), 1);
        look(o, "after building");
    }
    template <class U> void from_mask(Obj<U>& o, M* m) {
        bool mhad = m->rs->PositionsCalculated(); auto sel = selected(*m);
        int n = 0; for (char c : sel) n += c;
        Grid g = m->g; g.lyrs = sim::range(1, 3); bool two = g.lyrs > 1 || sim::flip(1, 4);
        double nd = cast<U>(m->g.nodata); g.nodata = nd; g.v.assign(g.lyrs, vector<double>(g.n(), nd));
        for (int i = 0; i < g.n(); i++) if (sel[i]) for (int l = 0; l < g.lyrs; l++) g.v[l][i] = sim::flip(1, 8) ? nd : gen_value<U>();
        bool wrong = sim::flip(1, 10);
        sim::log("%s: from mask %s, %d cells, %d layers%s", o.name.c_str(), m->name.c_str(), n, g.lyrs, wrong ? ", wrong length" : "");
        U* a = nullptr; U** b = nullptr; int k = 0;
        if (two) { utils_array::Initialize2DArray(n + 1, g.lyrs, b, (U) 0); for (int i = 0; i < g.n(); i++) if (sel[i]) { for (int l = 0; l < g.lyrs; l++) b[k][l] = (U) g.v[l][i]; k++; } }
        else { a = new U[n + 1]; for (int i = 0; i < g.n(); i++) if (sel[i]) a[k++] = (U) g.v[0][i]; a[n] = 0; }
        guarded("from-mask", [&]() { o.rs = two ? new clsRasterData<U, int>(m->rs, b, n + wrong, g.lyrs) : new clsRasterData<U, int>(m->rs, a, n + wrong); });
        settle(*m, mhad);
        if (two) utils_array::Release2DArray(b); else delete[] a;          // the raster has its own copy
        o.two = two; o.g = g; o.use_ext = true; o.deflt = two ? NODATA_VALUE : m->deflt;
        refer(o, m);
        if (wrong) { o.dead = true; look(o, "with a wrong number of values"); return; }
        o.pos = m->pos;
        look(o, "after building from a mask");
    }
    template <class U> void same_metadata(Obj<U>& a, Obj<U>& b, const char* when) {
        auto *x = a.rs, *y = b.rs;
        if (x->GetRasterHeader() != y->GetRasterHeader()) sim::violate("copy:header", "%s: headers of %s and %s differ", when, a.name.c_str(), b.name.c_str());
        if (x->GetOptions() != y->GetOptions()) sim::violate("copy:options", "%s: options of %s and %s differ", when, a.name.c_str(), b.name.c_str());
        if (x->GetCoreName() != y->GetCoreName() || x->GetFilePath() != y->GetFilePath() || x->GetDataType() != y->GetDataType() || x->GetOutDataType() != y->GetOutDataType() || x->GetDefaultValue() != y->GetDefaultValue() || x->PositionsCalculated() != y->PositionsCalculated() || x->MaskExtented() != y->MaskExtented() || x->StatisticsCalculated() != y->StatisticsCalculated()) sim::violate("copy:properties", "%s: name, path, types, default value or flags of %s and %s differ", when, a.name.c_str(), b.name.c_str());
        auto &s = x->GetSubset(), &t = y->GetSubset();
        if (s.size() != t.size()) sim::violate("copy:subsets", "%s: %zu subsets copied to %zu", when, s.size(), t.size());
        for (auto& kv : s) {
            auto it = t.find(kv.first); if (it == t.end()) sim::violate("copy:subsets", "%s: subset %d not copied", when, kv.first);
            auto *p = kv.second, *q = it->second;
            if (p == q || p->n_cells != q->n_cells || p->n_lyrs != q->n_lyrs || p->usable != q->usable || p->g_srow != q->g_srow || p->g_erow != q->g_erow || p->g_scol != q->g_scol || p->g_ecol != q->g_ecol || (p->data_ != nullptr) != (q->data_ != nullptr) || (p->data2d_ != nullptr) != (q->data2d_ != nullptr)) sim::violate("copy:subsets", "%s: subset %d differs", when, kv.first);
            for (int k = 0; k < p->n_cells; k++) if (p->global_[k] != q->global_[k] || p->local_posidx_[k] != q->local_posidx_[k] || (p->data_ && p->data_[k] != q->data_[k])) sim::violate("copy:subsets", "%s: cell %d of subset %d differs", when, k, kv.first);
        }
    }
    template <class U> void copied(Obj<U>& o, Obj<U>& src) {
        o.g = src.g; o.two = src.two; o.pos = src.pos; o.use_ext = src.use_ext; o.deflt = src.deflt; o.fresh_stats = src.fresh_stats; o.stats_known = src.stats_known; o.has_subs = src.has_subs; o.dead = src.dead; o.loose = src.loose;
        refer(o, src.mask);
        guarded("compare", [&]() { same_metadata(src, o, "after copying"); });
        look(o, "after copying"); look(src, "after being copied");
    }
    template <class U> void op(Obj<U>& o) {
        auto* r = o.rs; Grid& g = o.g; bool valid = !o.dead && r->ValidateRasterData();
        switch (lookups ? (int) sim::weighted({4, 3, 2, 2, 0, 0, 1, 4, 0, 0, 1, 1}) : (int) sim::draw(12)) {
            case 0: {                                              // positions
                if (!valid) break;
                bool had = r->PositionsCalculated();
                sim::log("%s: calculate positions", o.name.c_str());
                bool how = sim::flip(1, 3); int n = 0; int** p2 = nullptr; int* p1 = nullptr;
                guarded("positions", [&]() { if (!how) { if (r->SetCalcPositions() == had) sim::violate("set-positions", "SetCalcPositions returned %d", !had ? 0 : 1); } else { r->GetRasterPositionData(&n, &p2); r->GetRasterPositionData(&n, &p1); } });
                if (!had) { o.pos.clear(); for (int i = 0; i < g.n(); i++) if (g.v[0][i] == g.nodata) for (int l = 1; l < g.lyrs; l++) { if (g.v[l][i] != g.nodata) o.fresh_stats = false; g.v[l][i] = g.nodata; } o.has_subs = !r->GetSubset().empty(); adopt(o, nullptr, "after calculating positions"); }
                int k = 0;
                if (how && p2 && p1) for (int i = 0; i < g.n(); i++) if (o.pos[i]) { if (k >= n || p2[k][0] != i / g.cols || p2[k][1] != i % g.cols || p1[k] != i) sim::violate("position-data", "position data of %s at %d of %d", o.name.c_str(), k, n); k++; }
                break;
            }
            case 1: {                                              // set a value
                if (!valid) break;
                int i = (int) sim::draw((uint32_t) g.n()), l = (int) sim::draw((uint32_t) g.lyrs); double v = sim::flip(1, 6) ? g.nodata : gen_value<U>();
                bool stored = r->GetPosition(i / g.cols, i % g.cols) >= 0, wild = sim::flip(1, 10);
                sim::log("%s: set cell %d layer %d to %g%s", o.name.c_str(), i, l + 1, v, wild ? " (outside)" : "");
                guarded("set", [&]() {
                    if (wild) { r->SetValue(g.rows, 0, (U) v); r->SetValue(0, -1, (U) v); r->SetValue(i / g.cols, i % g.cols, (U) v, g.lyrs + 1); r->SetValue(i / g.cols, i % g.cols, (U) v, 0); }
                    else r->SetValue(i / g.cols, i % g.cols, (U) v, l + 1);
                });
                if (!wild && stored) { if (g.v[l][i] != v) o.fresh_stats = false; g.v[l][i] = v; }
                look(o, "after setting a value");
                break;
            }
            case 2: {                                              // replace no-data
                if (!valid) break;
                double v = sim::flip(1, 3) ? 0 : gen_value<U>(), old = g.nodata;
                sim::log("%s: replace no-data by %g", o.name.c_str(), v);
                guarded("replace", [&]() { r->ReplaceNoData((U) v); });
                for (auto& L : g.v) for (auto& x : L) if (x == old) x = v;
                g.nodata = v; o.deflt = v; o.fresh_stats = false; o.has_subs = !r->GetSubset().empty();
                look(o, "after replacing no-data");
                break;
            }
            case 3: {                                              // reclassify
                if (!valid) break;
                bool sane = true; for (auto& L : g.v) for (double x : L) sane &= std::fabs(x) < 2e9;
                if (!sane) break;
                std::map<int, U> m; int k = sim::range(0, 4); bool keep = sim::flip(1, 2);
                for (int j = 0; j < k; j++) m[(int) sim::draw(8)] = (U) gen_value<U>();
                if (keep) for (auto& L : g.v) for (double x : L) if (!m.count((int) x) && sim::flip(1, 2)) m[(int) x] = (U) (double) (int) x;
                if (sim::flip(1, 2)) m[(int) g.nodata] = (U) g.nodata;
                sim::log("%s: reclassify by %zu classes", o.name.c_str(), m.size());
                guarded("reclassify", [&]() { r->Reclassify(m); });
                for (int i = 0; i < g.n(); i++) if (o.pos[i]) for (int l = 0; l < g.lyrs; l++) { auto it = m.find((int) g.v[l][i]); g.v[l][i] = it == m.end() ? g.nodata : (double) it->second; }
                o.fresh_stats = false;
                look(o, "after reclassifying");
                break;
            }
            case 4: case 5: {                                      // statistics
                if (!valid) break;
                bool upd = !o.fresh_stats || sim::flip(1, 3);
                sim::log("%s: statistics, update %d", o.name.c_str(), upd);
                guarded("statistics", [&]() { if (upd) r->UpdateStatistics(); else if (sim::flip(1, 2)) r->CalculateStatistics(); if (r->GetStatistics("nonsense") != r->GetDefaultValue()) sim::violate("statistics:unknown", "an unknown statistic has a value"); statistics(o, "statistics"); });
                o.fresh_stats = true; o.stats_known = true;
                break;
            }
            case 6: {                                              // subsets
                if (!valid || sim::flip(1, 3)) break;
                bool sane = true; std::map<int, int> kinds; for (double x : g.v[0]) { sane &= std::fabs(x) < 2e9; if (sane && x != g.nodata) kinds[(int) x]++; }
                if (!sane) break;
                std::map<int, int> groups; if (sim::flip(1, 2)) for (auto& kv : kinds) if (sim::flip(1, 2)) groups[kv.first] = (int) sim::draw(3);
                bool had = r->PositionsCalculated(), subs = !r->GetSubset().empty(); int what = (int) sim::draw(3); bool ok = true;
                sim::log("%s: subsets %d", o.name.c_str(), what);
                guarded("subsets", [&]() { if (what == 0) ok = r->BuildSubSet(groups); else if (what == 1) ok = r->RebuildSubSet(groups); else r->ReleaseSubset(); });
                if (what != 2 && !had) { o.pos.clear(); for (int i = 0; i < g.n(); i++) if (g.v[0][i] == g.nodata) for (int l = 1; l < g.lyrs; l++) { if (g.v[l][i] != g.nodata) o.fresh_stats = false; g.v[l][i] = g.nodata; } }
                o.has_subs = !r->GetSubset().empty();
                adopt_or_look(o, what != 2 && !had, "after building subsets");
                if (what == 1 || (what == 0 && !subs)) {
                    size_t cells = 0, want = 0; for (auto& kv : r->GetSubset()) cells += kv.second->n_cells;
                    for (double x : g.v[0]) want += x != g.nodata;
                    if (cells != want) sim::violate("subset-cells", "%s: subsets hold %zu of %zu valid cells (%d)", o.name.c_str(), cells, want, ok);
                }
                if (what == 2 && !r->GetSubset().empty()) sim::violate("subsets-left", "subsets left after their release");
                if (what != 2 && sim::flip(1, 2)) for (auto& kv : r->GetSubset()) {           // give data to some
                    auto* s = kv.second; if (sim::flip(1, 2)) continue;
                    guarded("subset-data", [&]() {
                        if (sim::flip(1, 2)) { vector<double> d(s->n_cells, 4.5); s->SetData(s->n_cells, d.data()); }
                        else { int L = sim::range(1, 3); double** d = nullptr; utils_array::Initialize2DArray(s->n_cells, L, d, 2.5); s->Set2DData(s->n_cells, L, d); utils_array::Release2DArray(d); }
                    });
                }
                break;
            }
            case 7: {                                              // use the mask's extent
                if (!valid || !o.mask || o.use_ext || o.users || sim::flip(1, 2)) break;
                bool mhad = o.mask->rs->PositionsCalculated(); Grid mg = mask_grid(*o.mask); double nd = g.nodata, d = o.deflt;
                Grid n = mg; n.lyrs = g.lyrs; n.nodata = nd; n.v.assign(g.lyrs, vector<double>(n.n(), nd));
                int inside = 0;
                for (int i = 0; i < mg.n(); i++) if (mg.v[0][i] == 1) { int y, x; if (!locate(g, xof(mg, i % mg.cols), yof(mg, i / mg.cols), y, x)) continue; inside++; for (int l = 0; l < g.lyrs; l++) { double v = g.at(y, x, l); n.v[l][i] = v == nd ? d != nd ? cast<U>(d) : nd : v; } }
                sim::log("%s: use the extent of %s", o.name.c_str(), o.mask->name.c_str());
                bool ok = false; guarded("use-extent", [&]() { ok = r->SetUseMaskExt(); });
                o.use_ext = true; settle(*o.mask, mhad);
                if (ok != (inside > 0)) sim::violate("use-extent", "SetUseMaskExt returned %d with %d cells inside", ok, inside);
                if (!ok) { look(o, "after a refused change of extent"); break; }
                M* m = o.mask; o.g = n; o.fresh_stats = false; o.has_subs = !r->GetSubset().empty();
                adopt(o, m, "after using the mask's extent"); refer(o, m);
                break;
            }
            case 8: {                                              // header names and types
                guarded("set-types", [&]() { if (sim::flip(1, 2)) { r->SetCoreName("other"); if (r->GetCoreName() != "other") sim::violate("name", "core name not set"); } else r->SetDataType(RDT_Float); });
                break;
            }
            case 9: {                                              // write out: changes nothing
                if (!valid) break;
                guarded("output", [&]() { simfs::mkdirs(dir + "/out"); r->OutputToFile(dir + "/out/o.asc", sim::flip(1, 2)); });
                look(o, "after writing it to a file");
                break;
            }
            case 10: {                                             // a copy made by the language itself, if there is one
                if (!valid) break;
                by_value<clsRasterData<U, int>>(*r);
                look(o, "after a copy by value was dropped");
                break;
            }
            default: look(o, "later");
        }
    }
    template <class R> void by_value(R& r) {
        if constexpr (std::is_copy_constructible<R>::value) guarded("copy-by-value", [&]() { R c(r); (void) c; });
        if constexpr (std::is_copy_assignable<R>::value) guarded("copy-by-value", [&]() { R c; c = r; });
    }
    template <class U> void adopt_or_look(Obj<U>& o, bool changed, const char* when) { if (changed) adopt(o, nullptr, when); else look(o, when); }

    template <class U> void drop(vector<Obj<U>*>& v, size_t i) {
        Obj<U>* o = v[i];
        sim::log("%s: delete", o->name.c_str());
        guarded("delete", [&]() { delete o->rs; });
        if (o->mask) o->mask->users--;
        delete o; v.erase(v.begin() + (long) i);
    }
    template <class U> Obj<U>* create(vector<Obj<U>*>& v, const char* kind, bool plain) {
        Obj<U>* o = new Obj<U>; o->name = kind + std::to_string(++made);
        M* m = plain || sim::flip(1, 3) ? nullptr : any_mask();
        switch (sim::weighted({3, 2, 2, 2})) {
            case 0: load(*o, m); break;
            case 1: build(*o); break;
            case 2: if (m) from_mask(*o, m); else build(*o); break;
            default: {
                vector<Obj<U>*> c; for (auto* x : v) if (!x->dead) c.push_back(x);
                if (c.empty()) { build(*o); break; }
                Obj<U>* s = sim::pick(c);
                sim::log("%s: copy of %s", o->name.c_str(), s->name.c_str());
                guarded("copy", [&]() { o->rs = new clsRasterData<U, int>(s->rs); });
                copied(*o, *s);
            }
        }
        if (!o->rs) { if (o->mask) o->mask->users--; delete o; return nullptr; }
        v.push_back(o);
        return o;
    }
    template <class U> void again(vector<Obj<U>*>& v, size_t i) {          // reuse an object nobody depends on
        Obj<U>* o = v[i];
        if (o->users) return;
        M* m = sim::flip(1, 2) ? nullptr : any_mask((Obj<int>*) (void*) o);
        if (m && (void*) m == (void*) o) m = nullptr;
        if (sim::flip(1, 2)) { o->pos.clear(); Obj<U> keep = *o; load(*o, m); (void) keep; return; }
        vector<Obj<U>*> c; for (auto* x : v) if (!x->dead && x->mask != (void*) o) c.push_back(x);
        if (c.empty()) return;
        Obj<U>* s = sim::pick(c);
        sim::log("%s: becomes a copy of %s", o->name.c_str(), s->name.c_str());
        guarded("copy", [&]() { o->rs->Copy(s->rs); });
        if (s == o) look(*o, "after copying itself"); else copied(*o, *s);
    }
    void go(int steps) {
        create(ms, "m", true);
        for (int s = 0; s < steps; s++) {
            if (ms.empty() && !create(ms, "m", true)) continue;
            switch (sim::weighted({6, 12, 3, 2, 3, 2})) {
                case 0: if (rs.size() < 5) create(rs, "r", false); break;
                case 1: if (!rs.empty()) op(*sim::pick(rs)); break;
                case 2: { M* m = sim::pick(ms); if (sim::flip(1, 3) && ms.size() < 4) create(ms, "m", !nested && sim::flip(1, 2)); else op(*m); break; }
                case 3: if (!rs.empty()) again(rs, sim::draw((uint32_t) rs.size())); else again(ms, sim::draw((uint32_t) ms.size())); break;
                case 4: if (!rs.empty()) drop(rs, sim::draw((uint32_t) rs.size())); break;
                default: { size_t i = sim::draw((uint32_t) ms.size()); if (!ms[i]->users) drop(ms, i); }
            }
            if (made > 3 && !lookups) sim::mark_nontrivial();
        }
        for (auto* o : rs) look(*o, "at the end");
        for (auto* o : ms) look(*o, "at the end");
        while (!rs.empty()) drop(rs, sim::draw((uint32_t) rs.size()));
        while (!ms.empty()) { size_t i = sim::draw((uint32_t) ms.size()), k = 0; while (ms[i]->users && k++ < ms.size()) i = (i + 1) % ms.size(); if (ms[i]->users) sim::harness_error("masks refer to each other"); drop(ms, i); }
    }
};
#endif
