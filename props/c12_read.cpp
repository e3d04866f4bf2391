#include "props/mongo_raster.h"
const char* const kPropertyId = "C12";
const char* const kRule = "reads of stored streams, metadata and rasters with stored damage (missing, short or foreign chunks, wrong length, missing or damaged metadata) and faults at any message: success only with exactly the stored bytes, metadata and cells; "
    "failure leaves no data; a bounded number of messages and simulated time per read; no leak; once faults stop the same client succeeds again; the stored files are never changed.";
const char* const kRealComponents = MONGO_REAL;
const char* const kStubComponents = MONGO_STUB;

struct Item { string name, data; Meta meta; bool raster = false; Stored s; string damage; bool broken = false, meta_broken = false, open = false; };

// damage one stored file; returns what was done
static void damage(Item& it) {
    auto& files = simdb::coll(kDb, string(kGfs) + ".files").docs; auto& chunks = simdb::coll(kDb, string(kGfs) + ".chunks").docs;
    if (files.empty()) return;
    simdb::Raw& doc = files.back(); int n = simdb::files(kDb, kGfs).back().chunks; size_t first = chunks.size() - (size_t) n;
    int kind = (int) sim::draw(11); bool retype = kind >= 9; if (retype) kind = 7;
    switch (kind) {
        case 0: if (!n) return; { size_t k = first + sim::draw((uint32_t) n); chunks.erase(chunks.begin() + (long) k); it.damage = "chunk missing"; it.broken = true; } break;
        case 1: if (!n) return; { size_t k = first + sim::draw((uint32_t) n); string d = chunk_bytes(chunks[k]); if (d.empty()) return; size_t l = sim::draw((uint32_t) std::min<size_t>(d.size(), 1000)); edit_field(chunks[k], "data", [&](bson_t* b, const char* key) { bson_append_binary(b, key, -1, BSON_SUBTYPE_BINARY, (const uint8_t*) d.data(), (uint32_t) l); }); it.damage = "chunk cut"; it.broken = true; } break;
        case 2: edit_field(doc, "length", [&](bson_t* b, const char* k) { bson_append_int64(b, k, -1, (int64_t) it.data.size() + 1 + sim::draw(100)); }); it.damage = "length too big"; it.broken = true; break;
        case 3: if (!n) return; { size_t k = first + sim::draw((uint32_t) n); edit_field(chunks[k], "data", [&](bson_t* b, const char* key) { if (sim::flip(1, 2)) bson_append_utf8(b, key, -1, "text", -1); }); it.damage = "chunk without data"; it.broken = true; } break;
        case 4: edit_field(doc, "metadata", [&](bson_t*, const char*) {}); it.damage = "metadata missing"; it.meta_broken = true; break;
        case 5: edit_field(doc, "length", [&](bson_t* b, const char* k) { static const int64_t l[] = {-1, -1000, 1ll << 62}; bson_append_int64(b, k, -1, l[sim::draw(3)]); }); it.damage = "length impossible"; it.broken = true; it.open = it.data.empty(); break;
        case 6: edit_field(doc, "chunkSize", [&](bson_t* b, const char* k) { bson_append_int32(b, k, -1, 7); }); it.damage = "chunk size changed"; it.open = true; break;
        case 7: if (!it.raster) return; {
            auto f = simdb::files(kDb, kGfs).back(); simdb::Raw m = f.meta;
            static const char* keys[] = {"NROWS", "NCOLS", "LAYERS", "CELLSNUM", "DATATYPE_OUT", "CELLSIZE"}; const char* key = retype ? "DATATYPE_OUT" : keys[sim::draw(6)]; int how = retype ? 5 : (int) sim::draw(6);
            size_t width = it.data.size() / (size_t) (it.s.ncells * it.s.g.lyrs); const char* other = kDbTypes[sim::draw(10)].name;
            static const std::map<string, size_t> widths{{"UINT8", 1}, {"INT8", 1}, {"UINT16", 2}, {"INT16", 2}, {"UINT32", 4}, {"INT32", 4}, {"UINT64", 8}, {"INT64", 8}, {"FLOAT", 4}, {"DOUBLE", 8}};
            if (how == 5 && !strcmp(key, "DATATYPE_OUT") && widths.at(other) == width) return;        // cannot be told from the sizes
            edit_field(m, key, [&](bson_t* b, const char* k) { double d = 0; meta_num(f.meta, k, d);
                switch (how) { case 0: break; case 1: bson_append_utf8(b, k, -1, "none", -1); break; case 2: bson_append_double(b, k, -1, -3); break; case 3: bson_append_double(b, k, -1, 1e300); break; case 5: if (!strcmp(key, "DATATYPE_OUT")) bson_append_utf8(b, k, -1, other, -1); else bson_append_int32(b, k, -1, (int) d * 2); break; default: bson_append_int32(b, k, -1, (int) d + 1); } });
            if (!strcmp(key, "CELLSIZE") && how >= 3) return;
            edit_field(doc, "metadata", [&](bson_t* b, const char* k) { bson_t s; bson_init_static(&s, m.data(), m.size()); bson_append_document(b, k, -1, &s); });
            it.damage = string(key) + " damaged"; it.meta_broken = true;
            // one row more than there is data for is told by the cell count only if that is given for all cells
            if (how >= 4 && (!strcmp(key, "NROWS") || !strcmp(key, "NCOLS")) && !it.s.full) it.open = true;
            break; }
        default: std::reverse(chunks.begin() + (long) first, chunks.end()); it.damage = "chunks in reverse order"; break;
    }
}
static vector<Item> g_items; static vector<simdb::Raw> g_files, g_chunks;
// a nothrow array allocation of the library fails at the drawn position of this call
static int64_t g_oom = -1; static bool g_failed = false;
template <typename F> static void call(const char* what, F f) {
    guarded(what, [&]() { simalloc::fail_nth = g_oom; f(); });
    g_failed = g_oom >= 0 && simalloc::fail_nth < 0; simalloc::fail_nth = -1; g_oom = -1;
}

// one read; returns success, violates if the result is not what is stored
static bool read_item(MongoGridFs* g, const Item& it, bool faulty, const char* when) {
    uint64_t m0 = simdb::messages(), t0 = sim_ms() - simdb::delayed_ms(), f0 = simdb::fault_count(); bool ok = false;
    bool fails = it.broken, touches_meta = false;
    int op = (int) sim::weighted({3, 2, (uint32_t) (it.raster ? 4 : 1), (uint32_t) (it.raster ? 3 : 0)});
    bool may_fail = faulty || it.open;
    if (op == 0) {
        char* buf = nullptr; vint len = -1; bool want_meta = sim::flip(1, 2); bson_t* meta = nullptr;
        call("GetStreamData", [&]() { ok = g->GetStreamData(it.name, buf, len); });
        (void) want_meta; (void) meta;
        if (ok && (len != (vint) it.data.size() || (len && memcmp(buf, it.data.data(), it.data.size())))) sim::violate("wrong-bytes", "%s: '%s' (%s) reads as %d bytes, %zu are stored", when, it.name.c_str(), it.damage.c_str(), (int) len, it.data.size());
        if (!ok && (buf || len > 0)) sim::violate("partial-result", "%s: a failed read of '%s' left %d bytes", when, it.name.c_str(), (int) len);
        if (ok) delete[] buf;
    } else if (op == 1) {
        bson_t* b = nullptr; fails = false; if (it.open && !it.broken) may_fail = faulty;
        call("GetFileMetadata", [&]() { b = g->GetFileMetadata(it.name); });
        ok = b != nullptr;
        if (ok && !it.meta_broken) {
            simdb::Raw want; for (auto& f : simdb::files(kDb, kGfs)) if (f.name == it.name) want = f.meta;
            simdb::Raw got(bson_get_data(b), bson_get_data(b) + b->len);
            if (want.empty() ? b->len > 5 : got != want) sim::violate("wrong-metadata", "%s: metadata of '%s' reads as %s", when, it.name.c_str(), simdb::raw_json(got).c_str());
        }
        if (b) bson_destroy(b);
        may_fail |= it.broken;                       // an impossible files document need not be readable at all
    } else if (op == 2) {
        double* d = nullptr; STRDBL_MAP h = InitialHeader(); STRING_MAP sh = InitialStrHeader();
        fails |= it.meta_broken || !it.raster; touches_meta = true;
        call("ReadGridFsFile", [&]() { ok = ReadGridFsFile(g, it.name, d, h, sh, STRING_MAP()); });
        if (ok && it.raster) {
            const Stored& s = it.s; int n = 0;
            if (h.at("NROWS") != s.g.rows || h.at("NCOLS") != s.g.cols || h.at("LAYERS") != s.g.lyrs || h.at("CELLSNUM") != s.ncells) { if (!it.open) sim::violate("wrong-header", "%s: '%s' (%s) reads as %g x %g cells, %g layers", when, it.name.c_str(), it.damage.c_str(), h.at("NROWS"), h.at("NCOLS"), h.at("LAYERS")); }
            for (int i = 0; i < s.g.n(); i++) { if (!s.full && !s.cells[i]) continue; for (int l = 0; l < s.g.lyrs; l++) if (d[n * s.g.lyrs + l] != s.g.v[l][i]) sim::violate("wrong-values", "%s: '%s' (%s) value %d of layer %d is %g instead of %g", when, it.name.c_str(), it.damage.c_str(), n, l, d[n * s.g.lyrs + l], s.g.v[l][i]); n++; }
        }
        if (!ok && d) sim::violate("partial-result", "%s: a failed read of '%s' left values", when, it.name.c_str());
        if (d) utils_array::Release1DArray(d);
    } else {
        if (it.broken || it.meta_broken || it.open) {
            clsRasterData<double> rs; STRING_MAP o = read_opts(it.s); fails = !it.open;
            guarded("ReadFromMongoDB", [&]() { ok = rs.ReadFromMongoDB(g, it.name, sim::flip(1, 2), nullptr, true, NODATA_VALUE, o); });
            if (!ok && rs.ValidateRasterData()) sim::violate("partial-result", "%s: a failed read of '%s' left a raster", when, it.name.c_str());
        } else { ok = read_any(g, it.name, it.s, may_fail, when); if (!ok) may_fail = true; }
    }
    (void) touches_meta;
    uint64_t msgs = simdb::messages() - m0, ms = sim_ms() - simdb::delayed_ms() - t0, faults = simdb::fault_count() - f0;
    sim::log("%s: op %d on '%s' (%s) -> %d", when, op, it.name.c_str(), it.damage.c_str(), ok);
    if (ok && fails && !it.open) sim::violate("damage-accepted", "%s: '%s' (%s) was read with success", when, it.name.c_str(), it.damage.c_str());
    if (!ok && !fails && !may_fail) sim::violate("unreadable", "%s: '%s' (%s) cannot be read from a healthy server (operation %d)", when, it.name.c_str(), it.damage.c_str(), op);
    if (msgs > 60 + it.data.size() / 20000) sim::violate("unbounded", "%s: reading '%s' took %llu messages", when, it.name.c_str(), (unsigned long long) msgs);
    if (ms > 10000 + faults * 320000) sim::violate("unbounded-time", "%s: reading '%s' took %llu ms of simulated time with %llu faults", when, it.name.c_str(), (unsigned long long) ms, (unsigned long long) faults);
    return ok;
}
static void read_missing(MongoGridFs* g, const char* when) {
    char* buf = nullptr; vint len = 0; bool ok = false; bson_t* b = nullptr; double* d = nullptr; STRDBL_MAP h = InitialHeader(); STRING_MAP sh;
    uint64_t m0 = simdb::messages();
    guarded("missing", [&]() {
        switch (sim::draw(3)) { case 0: ok = g->GetStreamData("nosuch", buf, len); break; case 1: b = g->GetFileMetadata("nosuch"); ok = b != nullptr; break; default: ok = ReadGridFsFile(g, "nosuch", d, h, sh, STRING_MAP()); }
    });
    if (ok || buf || d) sim::violate("missing-read", "%s: a file that is not there was read", when);
    if (simdb::messages() - m0 > 60) sim::violate("unbounded", "%s: looking for a missing file took %llu messages", when, (unsigned long long) (simdb::messages() - m0));
}
void prop_init() { mongo_init(); }
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    simdb::server.dbs.clear();
    g_items.clear();
    int n = 1 + (int) sim::draw(3);
    {
        Client cl; if (!cl.open()) sim::harness_error("no server");
        for (int i = 0; i < n; i++) {
            Item it; it.name = "f" + std::to_string(i);
            if (sim::flip(1, 2)) {
                DbRaster<double> r; make_version(r, (int) sim::draw(12), sim::flip(1, 10)); it.raster = true;
                bool full = sim::flip(2, 3); it.s = expect(r, full, UserOpts()); if (db_convert(it.s.g, *r.out) != 1) sim::harness_error("unfit");
                bool ok = false; guarded("store", [&]() { ok = r.rs->OutputToMongoDB(cl.g, it.name, STRING_MAP(), full); });
                if (!ok) sim::violate("refused-healthy", "storing %s failed on a healthy server", r.what.c_str());
                it.data = simdb::files(kDb, kGfs).back().data;
            } else {
                it.data = gen_bytes(); it.meta = gen_meta(); bson_t m; bson_init(&m); it.meta.to_bson(&m);
                static const int cs[] = {261120, 261120, 100, 4096, 1 << 20}; int c = cs[sim::draw(5)]; if (it.data.size() / (size_t) c > 200) c = 261120;
                simdb::put_file(kDb, kGfs, it.name, it.data, sim::flip(1, 4) ? nullptr : &m, c); bson_destroy(&m);
            }
            if (sim::flip(1, 3)) { damage(it); sim::log("'%s': %s", it.name.c_str(), it.damage.c_str()); if (!it.damage.empty()) sim::mark_nontrivial(); }
            g_items.push_back(it);
        }
    }
    g_files = simdb::coll(kDb, string(kGfs) + ".files").docs; g_chunks = simdb::coll(kDb, string(kGfs) + ".chunks").docs;
    LeakCheck lc; uint64_t f0 = simdb::fault_count();
    {
        Client cl; auto rules = gen_net(kReadFaults, 14); bool late = sim::flip(3, 4);
        if (!late) simdb::arm(rules);
        bool up = cl.open();
        if (late) simdb::arm(rules);
        int k = 1 + (int) sim::draw(4);
        bool oom = sim::flip(1, 6);
        if (cl.g) for (int i = 0; i < k; i++) {
            bool faulty = !only_delays(rules) || !up || oom;
            g_oom = oom ? (int64_t) sim::draw(6) : -1;
            if (sim::flip(1, 10)) read_missing(cl.g, "under faults"); else read_item(cl.g, g_items[sim::draw((uint32_t) n)], faulty, "under faults");
        }
        g_oom = -1;
        if (simdb::fault_count() > f0 || oom) sim::mark_nontrivial();
        calm();
        if (!up) { cl.close(); if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy"); }
        // recovery: the same client succeeds again, the connection that was lost may cost one attempt
        for (auto& it : g_items) {
            bool ok = read_item(cl.g, it, !it.broken && up && simdb::fault_count() > f0, "after the faults");
            (void) ok; read_item(cl.g, it, false, "after the faults, again");
        }
        read_missing(cl.g, "after the faults");
    }
    lc.check("after reading", false);
    if (simdb::coll(kDb, string(kGfs) + ".files").docs != g_files || simdb::coll(kDb, string(kGfs) + ".chunks").docs != g_chunks) sim::violate("store-changed", "reading changed what is stored");
}
