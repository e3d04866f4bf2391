// Shared pieces of the database workloads.
#ifndef PROPS_MONGO_COMMON_H
#define PROPS_MONGO_COMMON_H
#include "props/raster_model.h"
#include "sim/mongo.h"
#include "db_mongoc.h"
#include <algorithm>
#include <map>
#include <set>
using namespace ccgl::db_mongoc;

static const char* const kDb = "simdb";
static const char* const kGfs = "SPATIAL";
#define MONGO_REAL "CCGL db_mongoc/data_raster/utils, libmongoc and libbson 1.26 (client, cluster, topology scanner, cursors, GridFS, wire protocol)"
#define MONGO_STUB "network and MongoDB server (in-process simulation behind libmongoc's stream initiator), clocks, kernel file system, OpenMP runtime (scheduler under the tape)"

struct Client {
    MongoClient* c = nullptr; MongoGridFs* g = nullptr;
    bool open(bool gfs = true) {
        guarded("MongoClient::Init", [&]() { c = MongoClient::Init("127.0.0.1", 27017); });
        if (!c) return false;
        if (gfs) guarded("GridFs", [&]() { g = c->GridFs(kDb, kGfs); });
        return !gfs || (g && g->GetGridFs() != nullptr);
    }
    void close() {
        delete g; g = nullptr;
        if (c) { guarded("Destroy", [&]() { c->Destroy(); }); delete c; c = nullptr; }
    }
    ~Client() { close(); }
};
// Faults are over; the driver's retry cool-down has passed.
inline void calm() { simdb::disarm(); simdb::on_message = nullptr; if (simdb::client_dead()) simdb::revive(); simclock::tick(30ull * 1000000000ull); }

typedef vector<simdb::File> Files;
inline Files named(const string& n) { Files o; for (auto& f : simdb::files(kDb, kGfs)) if (f.name == n) o.push_back(f); return o; }

struct Meta {                                   // metadata of a stored stream, canonical values only
    vector<std::pair<string, string>> kv;       // value: "i:5", "d:1.5", "s:text", "t:seconds", "b:1"
    void to_bson(bson_t* b) const {
        for (auto& e : kv) {
            const char* k = e.first.c_str(); string v = e.second.substr(2);
            switch (e.second[0]) {
                case 'i': BSON_APPEND_INT32(b, k, atoi(v.c_str())); break;
                case 'l': BSON_APPEND_INT64(b, k, atoll(v.c_str())); break;
                case 'd': BSON_APPEND_DOUBLE(b, k, atof(v.c_str())); break;
                case 't': BSON_APPEND_DATE_TIME(b, k, atoll(v.c_str())); break;
                case 'b': BSON_APPEND_BOOL(b, k, v == "1"); break;
                default: BSON_APPEND_UTF8(b, k, v.c_str());
            }
        }
    }
    simdb::Raw raw() const { bson_t b; bson_init(&b); to_bson(&b); simdb::Raw r(bson_get_data(&b), bson_get_data(&b) + b.len); bson_destroy(&b); return r; }
};
inline Meta gen_meta() {
    Meta m; int n = (int) sim::skewed(6);
    static const char* k[] = {"UNIT", "SCENARIO", "CELLSNUM", "DATE", "DESC", "VER"};
    for (int i = 0; i < n; i++) {
        switch (sim::draw(6)) {
            case 0: m.kv.push_back({k[i], "i:" + std::to_string((int) sim::draw(100))}); break;
            case 1: m.kv.push_back({k[i], "d:" + std::to_string((int) sim::draw(100)) + ".5"}); break;
            case 2: m.kv.push_back({k[i], "s:t" + std::to_string((int) sim::draw(100))}); break;
            case 3: m.kv.push_back({k[i], "l:" + std::to_string(5000000000ll + (int) sim::draw(100))}); break;
            case 4: m.kv.push_back({k[i], "t:" + std::to_string(1500000000000ll + (int) sim::draw(100))}); break;
            default: m.kv.push_back({k[i], "s:"}); break;
        }
    }
    return m;
}
inline string gen_bytes() {
    size_t n;
    switch (sim::weighted({8, 3, 1})) {
        case 0: n = sim::draw(200); break;
        case 1: n = 1 + sim::draw(5000); break;
        default: { static const int s[] = {261120, 261119, 261121, 522240, 300000, 700001}; n = (size_t) s[sim::draw(6)]; }
    }
    string d(n, 0); uint32_t a = 1 + sim::draw(250), x = sim::draw(256);
    for (size_t i = 0; i < n; i++) { d[i] = (char) (x + i * a + (i >> 8)); }
    return d;
}
static const vector<int> kWriteFaults = {simdb::DROP_REQ, simdb::DROP_REPLY, simdb::PART_REPLY, simdb::HANG_REQ, simdb::HANG_REPLY, simdb::ERR, simdb::WRITE_ERR, simdb::WC_ERR, simdb::PARTIAL, simdb::RESTART, simdb::REFUSE, simdb::CONN_HANG, simdb::DELAY};
static const vector<int> kReadFaults = {simdb::DROP_REQ, simdb::DROP_REPLY, simdb::PART_REPLY, simdb::HANG_REQ, simdb::HANG_REPLY, simdb::ERR, simdb::RESTART, simdb::REFUSE, simdb::CONN_HANG, simdb::DELAY};
inline vector<simdb::Rule> gen_net(const vector<int>& kinds, int span, uint32_t none = 1) {
    vector<simdb::Rule> r; uint32_t n = sim::weighted({none, 5, 2, 1});
    for (uint32_t i = 0; i < n; i++) r.push_back(simdb::draw_rule(kinds, span));
    return r;
}
inline bool only_delays(const vector<simdb::Rule>& rs) { for (auto& r : rs) if (r.kind != simdb::DELAY) return false; return true; }

// exercise every driver path once so that its process-wide caches exist before memory is accounted
inline void mongo_init() {
    raster_init();
    simdb::init();
}
struct LeakCheck {                              // driver blocks and arrays before a client's life against after it
    int64_t blocks, arrays, tolerated = 0; int streams; uint64_t errs = simdb::error_replies(), faults = simdb::fault_count();
    LeakCheck() : blocks(simdb::bson_blocks()), streams(simdb::open_streams()) { simdb::trace_blocks(); simalloc::start(); arrays = simalloc::live_arrays(); }
    void check(const char* when, bool with_arrays = true) {
        // libmongoc 1.26 loses an error reply itself when the retry of the read fails too
        int64_t left = simdb::bson_blocks() - blocks, own = simdb::fault_count() - faults >= 2 ? (int64_t) (simdb::error_replies() - errs) : 0;
        if (left < 0 || left > own + tolerated) { simdb::trace_blocks(); sim::violate("driver-leak", "%s: %lld driver memory blocks are never released", when, (long long) left); }
        if (with_arrays && simalloc::live_arrays() != arrays) sim::violate("array-leak", "%s: %lld arrays (%zu bytes) are never released", when, (long long) (simalloc::live_arrays() - arrays), simalloc::live_bytes());
        if (simdb::open_streams() != streams) sim::violate("connection-leak", "%s: %d connections left open", when, simdb::open_streams() - streams);
        simalloc::stop();
    }
};
#endif
#ifndef PROPS_MONGO_EDIT
#define PROPS_MONGO_EDIT
// replace one field of a stored document (nothing appended: field dropped)
inline void edit_field(simdb::Raw& r, const char* key, std::function<void(bson_t*, const char*)> put) {
    bson_t in, out; bson_iter_t it; bson_init_static(&in, r.data(), r.size()); bson_init(&out);
    if (bson_iter_init(&it, &in)) while (bson_iter_next(&it)) {
        const char* k = bson_iter_key(&it);
        if (!strcmp(k, key)) { put(&out, k); continue; }
        bson_append_value(&out, k, -1, bson_iter_value(&it));
    }
    r.assign(bson_get_data(&out), bson_get_data(&out) + out.len); bson_destroy(&out);
}
inline void add_field(simdb::Raw& r, std::function<void(bson_t*)> put) {
    bson_t in, out; bson_init_static(&in, r.data(), r.size()); bson_copy_to(&in, &out); put(&out);
    r.assign(bson_get_data(&out), bson_get_data(&out) + out.len); bson_destroy(&out);
}
inline string chunk_bytes(const simdb::Raw& r) {
    bson_t b; bson_iter_t it; uint32_t n = 0; const uint8_t* d = nullptr; bson_subtype_t st;
    if (!bson_init_static(&b, r.data(), r.size()) || !bson_iter_init_find(&it, &b, "data") || !BSON_ITER_HOLDS_BINARY(&it)) return "";
    bson_iter_binary(&it, &st, &n, &d); return string((const char*) d, n);
}
inline uint64_t sim_ms() { return simclock::mono_ns / 1000000; }
#endif
