#include "props/mongo_raster.h"
const char* const kPropertyId = "C11";
const char* const kRule = "after every overwrite (faults at any message, death of the client before any message, other clients reading or overwriting in between): acknowledged -> exactly one matching version, listed once, "
    "every read gives the new data; otherwise a read fails or gives the complete old or new version (bytes, metadata, cells); the next fault-free overwrite leaves exactly one version; versions under other names or with other options are untouched.";
const char* const kRealComponents = MONGO_REAL;
const char* const kStubComponents = MONGO_STUB;

struct Ver { DbRaster<double> r; Stored s; string bytes; };
static const char* kName = "dem";
static UserOpts g_user; static bool g_full;
static void prepare(Ver& v, int seed, bool big) {
    make_version(v.r, seed, big);
    v.s = expect(v.r, g_full, g_user);
    if (db_convert(v.s.g, *v.r.out) != 1) sim::harness_error("version does not fit its type");
}
static bool put(MongoGridFs* g, Ver& v, const char* who) {
    bool ok = false; STRING_MAP o = g_user.m;
    guarded("OutputToMongoDB", [&]() { ok = v.r.rs->OutputToMongoDB(g, kName, o, g_full); });
    sim::log("%s: overwrite with %s -> %d", who, v.r.what.c_str(), ok);
    return ok;
}
// stored files that a lookup by name and options can return
static bool matches(const simdb::File& f) {
    if (f.name != kName) return false;
    double d; if (strcasecmp(meta_num(f.meta, "INCLUDE_NODATA", d).c_str(), g_full ? "TRUE" : "FALSE")) return false;
    for (auto& kv : g_user.m) { double n = 0; string e = meta_num(f.meta, kv.first, n); char* end; double w = strtod(kv.second.c_str(), &end); if (*end ? e != kv.second : !e.empty() || n != w) return false; }
    return true;
}
static Files current() { Files o; for (auto& f : simdb::files(kDb, kGfs)) if (matches(f)) o.push_back(f); return o; }
// a read through the class has to give one of the versions; 0: none readable, else 1 + index
static int read_one(MongoGridFs* g, const vector<Ver*>& vs, const char* who) {
    bool raw = sim::flip(1, 3);
    STRING_MAP o = g_user.m; o["INCLUDE_NODATA"] = g_full ? "TRUE" : "FALSE";
    double* data = nullptr; STRDBL_MAP h = InitialHeader(); STRING_MAP sh = InitialStrHeader(); bool ok = false; int hit = 0;
    if (raw) {
        char* buf = nullptr; vint len = -1; bool r = false;
        guarded("GetStreamData", [&]() { r = g->GetStreamData(kName, buf, len, nullptr, &o); });
        if (r) for (size_t k = 0; k < vs.size() && !hit; k++) if (vs[k]->bytes.size() == (size_t) len && !memcmp(vs[k]->bytes.data(), buf, (size_t) len)) hit = 1 + (int) k;
        if (r && !hit) sim::violate("mixture:bytes", "%s: a read gives %d bytes that are no version's", who, (int) len);
        if (!r && buf) sim::violate("partial-result", "%s: a failed read left %d bytes", who, (int) len);
        delete[] buf;
        sim::log("%s: raw read -> %d", who, hit);
        return hit;
    }
    guarded("ReadGridFsFile", [&]() { ok = ReadGridFsFile(g, kName, data, h, sh, o); });
    if (ok) {
        for (size_t k = 0; k < vs.size() && !hit; k++) {
            const Stored& s = vs[k]->s;
            if (h.at("NROWS") != s.g.rows || h.at("NCOLS") != s.g.cols || h.at("LAYERS") != s.g.lyrs || h.at("CELLSNUM") != s.ncells || h.at("CELLSIZE") != s.g.dx || h.at("XLLCENTER") != s.g.xll || h.at("NODATA_VALUE") != s.g.nodata || strcasecmp(sh["DATATYPE_OUT"].c_str(), s.type.c_str())) continue;
            bool same = true; int n = 0;
            for (int i = 0; i < s.g.n() && same; i++) { if (!s.full && !s.cells[i]) continue; for (int l = 0; l < s.g.lyrs; l++) same = same && data[n * s.g.lyrs + l] == s.g.v[l][i]; n++; }
            if (same) hit = 1 + (int) k;
        }
        if (!hit) sim::violate("mixture", "%s: a read gives %g x %g cells, %g layers, type %s that are no version's", who, h.at("NROWS"), h.at("NCOLS"), h.at("LAYERS"), sh["DATATYPE_OUT"].c_str());
    } else if (data) sim::violate("partial-result", "%s: a failed read left data", who);
    if (data) utils_array::Release1DArray(data);
    sim::log("%s: read -> %d", who, hit);
    return hit;
}
static void settle(Client& cl, const vector<Ver*>& vs, int newest, bool acked, const char* when) {
    auto fs = current();
    if (acked) {
        if (fs.size() != 1) sim::violate("versions", "%s: %zu versions are stored after an acknowledged overwrite", when, fs.size());
        if (!fs[0].complete || fs[0].data != vs[(size_t) newest]->bytes) sim::violate("wrong-version", "%s: the stored bytes are not those of the acknowledged overwrite (%zu of %zu bytes, %d chunks)", when, fs[0].data.size(), vs[(size_t) newest]->bytes.size(), fs[0].chunks);
        string d = diff_meta(fs[0], vs[(size_t) newest]->s);
        if (!d.empty()) sim::violate("wrong-metadata", "%s: %s", when, d.c_str());
    }
    for (int i = 0; i < 2; i++) {
        int hit = read_one(cl.g, vs, when);
        if (acked && hit != newest + 1) sim::violate(hit ? "old-version-read" : "unreadable", "%s: a read gives %s after an acknowledged overwrite", when, hit ? "another version" : "nothing");
    }
    if (acked) {
        vector<string> names; guarded("GetFileNames", [&]() { cl.g->GetFileNames(names); });
        size_t n = 0, want = 0; for (auto& s : names) n += s == kName;
        for (auto& f : simdb::files(kDb, kGfs)) want += f.name == kName;
        if (n != want) sim::violate("listing", "%s: the name is listed %zu times, %zu versions are stored", when, n, want);
        read_any(cl.g, kName, vs[(size_t) newest]->s, false, when);
    }
}
void prop_init() { mongo_init(); }
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    g_user = UserOpts::gen(); g_full = sim::flip(2, 3);
    bool big = sim::flip(1, 8);
    vector<std::unique_ptr<Ver>> own; vector<Ver*> vs;
    int n = 3, seed = (int) sim::draw(12);
    for (int i = 0; i < n; i++) { own.emplace_back(new Ver()); prepare(*own.back(), seed + i * (1 + (int) sim::draw(4)) + 13 * i, big); vs.push_back(own.back().get()); }
    // each version's bytes, and bystanders, stored by somebody else
    simdb::Raw others; Files before;
    {
        Client cl; if (!cl.open()) sim::harness_error("no server");
        for (auto* v : vs) {
            if (!put(cl.g, *v, "setup")) sim::violate("refused-healthy", "storing %s failed on a healthy server", v->r.what.c_str());
            auto f = current(); if (f.size() != 1) sim::violate("versions", "%zu versions are stored after overwriting on a healthy server", f.size());
            v->bytes = f[0].data;
            if (!f[0].complete) sim::violate("wrong-version", "%s is stored incompletely", v->r.what.c_str());
        }
        bson_t m; bson_init(&m); BSON_APPEND_UTF8(&m, "INCLUDE_NODATA", g_full ? "TRUE" : "FALSE"); BSON_APPEND_UTF8(&m, "DATATYPE_OUT", "DOUBLE");
        simdb::put_file(kDb, kGfs, string(kName) + "2", "neighbour", &m); simdb::put_file(kDb, kGfs, "de", "neighbour", nullptr);
        if (!g_user.m.empty()) { BSON_APPEND_INT32(&m, "SCENARIO", 77); BSON_APPEND_UTF8(&m, "UNIT", "none"); BSON_APPEND_INT32(&m, "STAMP", 1); simdb::put_file(kDb, kGfs, kName, "other options", &m); }
        bson_destroy(&m);
        // the starting point: version 0, or nothing
        if (!put(cl.g, *vs[0], "setup")) sim::violate("refused-healthy", "storing %s failed on a healthy server", vs[0]->r.what.c_str());
    }
    auto bystanders = [&]() { Files o; for (auto& f : simdb::files(kDb, kGfs)) if (!matches(f) && !f.name.empty()) o.push_back(f); return o; };
    before = bystanders();
    auto untouched = [&](const char* when) {
        auto now = bystanders();
        if (now.size() != before.size()) sim::violate("bystander", "%s: %zu other files instead of %zu", when, now.size(), before.size());
        for (size_t i = 0; i < now.size(); i++) if (now[i].doc != before[i].doc || now[i].data != before[i].data || !now[i].complete) sim::violate("bystander", "%s: '%s' was changed", when, now[i].name.c_str());
    };
    simdb::disarm();
    LeakCheck lc; uint64_t f0 = simdb::fault_count();
    int mode = (int) sim::weighted({4, 3, 3, 1}); bool acked = false; int newest = 1;
    if (mode <= 1) {                                  // faults at any message, or the client dies
        Client cl; auto rules = gen_net(kWriteFaults, 16);
        if (mode == 1) { rules.clear(); simdb::kill_client_after(6 + (int) sim::draw(24)); }
        bool late = sim::flip(2, 3);
        if (!late) simdb::arm(rules);
        if (cl.open()) { if (late) simdb::arm(rules); acked = put(cl.g, *vs[1], "overwriter"); }
        if (mode == 1 && simdb::client_dead()) acked = false;   // nobody is left to see the result
        if (mode == 1) simdb::revive();
    } else {                                          // a reader, or another overwriter, between the messages of the overwriter
        vector<Ver*> all = vs; bool ok1 = false, ok2 = false; auto rules = gen_net(kWriteFaults, 30, 4);
        simdb::yield_points = true; simdb::arm(rules);
        simthr::spawn([&]() { Client a; if (a.open()) ok1 = put(a.g, *vs[1], "overwriter"); }, "overwriter");
        if (mode == 2) simthr::spawn([&]() { Client b; if (b.open()) for (int i = 0; i < 3; i++) { read_one(b.g, {vs[0], vs[1]}, "reader"); simthr::yield(); } }, "reader");
        else simthr::spawn([&]() { Client b; if (b.open()) ok2 = put(b.g, *vs[2], "second overwriter"); }, "second");
        simthr::join_all(); simdb::yield_points = false;
        acked = mode == 2 && ok1;
        sim::mark_nontrivial();
        (void) ok2;
    }
    bool fired = simdb::fault_count() > f0 || simdb::client_dead();
    if (fired) sim::mark_nontrivial();
    calm();
    if (mode == 0 && !acked && !fired) sim::violate("refused-healthy", "an overwrite failed on a healthy server");
    {
        Client cl; if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy");
        untouched("after the overwrite");
        settle(cl, vs, newest, acked, "after the overwrite");
        if (!put(cl.g, *vs[2], "later overwrite")) sim::violate("no-recovery", "a fault-free overwrite fails after an earlier one met faults");
        untouched("after a fault-free overwrite");
        settle(cl, vs, 2, true, "after a fault-free overwrite");
    }
    lc.check("after overwriting", false);
}
