#include "props/mongo_raster.h"
const char* const kPropertyId = "C10";
const char* const kRule = "after a write reported success (and only faults during the write): exactly one version under the name, byte-identical data, metadata equal to the header, type and options given; "
    "every way of reading it back (plain, masked with or without extent and default value, valid-only with positions of a mask or assigned beforehand) equals the plain-grid reference; "
    "a write without any fault succeeds unless a value does not fit the requested type; a version is never read with positions, mask or header of something else; no driver memory, array or connection leaks";
const char* const kRealComponents = MONGO_REAL;
const char* const kStubComponents = MONGO_STUB;
static void raw_write() {
    string name = "f" + std::to_string(sim::draw(3)), data = gen_bytes(); Meta meta = gen_meta();
    auto rules = gen_net(kWriteFaults, 12);
    sim::log("write %zu bytes, %zu metadata fields", data.size(), meta.kv.size());
    LeakCheck lc; bool ok = false; uint64_t f0 = simdb::fault_count();
    {
        Client cl; bool late = sim::flip(1, 2);
        if (!late) simdb::arm(rules);
        bool up = cl.open();
        if (late) simdb::arm(rules);
        bson_t m; bson_init(&m); meta.to_bson(&m);
        string copy = data; char* buf = &copy[0];
        if (cl.g) guarded("WriteStreamData", [&]() { ok = cl.g->WriteStreamData(name, buf, (int) data.size(), &m); });
        bson_destroy(&m);
        if (copy != data) sim::violate("input-changed", "the caller's buffer was changed");
        bool fired = simdb::fault_count() > f0;
        sim::log("up %d ok %d fired %d", up, ok, fired);
        if (!ok && !fired) sim::violate("refused-healthy", "storing a stream failed on a healthy server");
        if (fired) sim::mark_nontrivial();
        calm();
        auto fs = named(name);
        if (ok) {
            if (fs.size() != 1) sim::violate("lost", "an acknowledged stream is stored %zu times", fs.size());
            if (!fs[0].complete || fs[0].data != data) sim::violate("lost-data", "an acknowledged stream of %zu bytes is stored as %zu bytes (length %lld, %d chunks)", data.size(), fs[0].data.size(), (long long) fs[0].length, fs[0].chunks);
            if (meta.kv.empty() ? fs[0].has_meta && fs[0].meta != meta.raw() : fs[0].meta != meta.raw()) sim::violate("wrong-metadata", "metadata stored as %s", simdb::raw_json(fs[0].meta).c_str());
        }
    }
    if (ok) {
        Client cl; if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy");
        char* buf = nullptr; vint len = -1; bool r = false;
        guarded("GetStreamData", [&]() { r = cl.g->GetStreamData(name, buf, len); });
        if (!r) sim::violate("unreadable", "an acknowledged stream cannot be read on a healthy server");
        if (len != (vint) data.size() || memcmp(buf, data.data(), data.size())) sim::violate("wrong-read", "an acknowledged stream reads back differently (%d bytes of %zu)", (int) len, data.size());
        delete[] buf;
    }
    lc.check("after storing and reading a stream");
}
template <class T> static void raster_write() {
    DbRaster<T> src; src.make((int) sim::weighted({4, 1, 1}) + 1);
    bool full = sim::flip(1, 2); UserOpts u = UserOpts::gen();
    string name = sim::flip(1, 4) ? "" : "r" + std::to_string(sim::draw(2));
    Stored want = expect(src, full, u);
    int legal = db_convert(want.g, *src.out);
    if (!full && want.ncells == 0) legal = 0;
    bool use_opts = sim::flip(1, 2); STRING_MAP opts = u.m;
    auto rules = gen_net(kWriteFaults, 14);
    sim::log("%s, %s, legal %d", src.what.c_str(), full ? "full" : "valid-only", legal);
    bool ok = false; uint64_t f0 = simdb::fault_count();
    string real = name.empty() ? "core" : name;
    LeakCheck lc;
    {
        Client cl; bool late = sim::flip(1, 2);
        if (!late) simdb::arm(rules);
        bool up = cl.open();
        if (late) simdb::arm(rules);
        (void) use_opts;
        if (cl.g) guarded("OutputToMongoDB", [&]() { if (name.empty()) src.rs->SetCoreName("core"); ok = src.rs->OutputToMongoDB(cl.g, name, opts, full); });
        bool fired = simdb::fault_count() > f0;
        sim::log("up %d ok %d fired %d", up, ok, fired);
        if (fired) sim::mark_nontrivial();
        if (!ok && !fired && legal == 1) sim::violate("refused-healthy", "storing %s (%s) failed on a healthy server", src.what.c_str(), full ? "full" : "valid-only");
        if (ok && legal == 0) sim::violate("stored-unfit", "%s (%s) was reported stored although its values do not fit", src.what.c_str(), full ? "full" : "valid-only");
        calm();
        if (ok && legal == 1) {
            auto fs = named(real);
            if (fs.size() != 1) sim::violate("lost", "an acknowledged raster is stored %zu times", fs.size());
            if (!fs[0].complete) sim::violate("lost-data", "an acknowledged raster is stored incompletely (length %lld, %d chunks)", (long long) fs[0].length, fs[0].chunks);
            string d = diff_meta(fs[0], want);
            if (!d.empty()) sim::violate("wrong-metadata", "metadata of %s: %s", src.what.c_str(), d.c_str());
        }
        // the raster itself is unchanged
        Grid after; guarded("view", [&]() { if (src.rs->ValidateRasterData()) after = view(src.rs); else { after = src.g; for (double v : src.g.v[0]) if (v != src.g.nodata) sim::violate("source-changed", "the raster has no data after being stored"); } });
        Load same; same.g = src.g; same.loose.assign(src.g.n(), 0); for (int i = 0; i < src.g.n(); i++) same.loose[i] = src.g.v[0][i] == src.g.nodata;
        string d = diff_load(after, same, false);
        if (!d.empty()) sim::violate("source-changed", "storing %s changed it: %s", src.what.c_str(), d.c_str());
    }
    if (ok && legal == 1) {
        Client cl; if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy");
        int n = 1 + (int) sim::draw(2);
        for (int i = 0; i < n; i++) read_any(cl.g, real, want, false, "after storing");
    }
    // positions may have been calculated for the output, statistics for the mask
    lc.check("after storing and reading a raster", false);
    simalloc::stop();
}
void prop_init() { mongo_init(); }
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    switch (sim::draw(6)) {
        case 0: case 1: raw_write(); break;
        case 2: raster_write<float>(); break;
        case 3: raster_write<int>(); break;
        case 4: raster_write<double>(); break;
        default: if (sim::flip(1, 2)) raster_write<short>(); else raster_write<unsigned char>();
    }
}
