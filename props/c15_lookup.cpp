#include "props/mongo_common.h"
const char* const kPropertyId = "C15";
const char* const kRule = "over server contents (databases, collections, GridFS pairs and halves, up to hundreds of entries across reply batches) and histories of listings, counts, queries and lookups by name and metadata with faults at any message and another client changing the content in between: "
    "without a fault every listing and count is exactly what the server holds and every lookup finds a matching file iff there is one; under faults nothing is returned that the server does not hold, nothing crashes, hangs or leaks; once faults stop the next call is exact.";
const char* const kRealComponents = MONGO_REAL;
const char* const kStubComponents = MONGO_STUB;

typedef std::multiset<string> Names;
static string show(const Names& n) { string o; int k = 0; for (auto& s : n) { if (k++ == 6) { o += " ..."; break; } o += " " + s; } return std::to_string(n.size()) + " [" + o + " ]"; }
static Names db_names() { Names o; for (auto& d : simdb::server.dbs) if (!d.second.empty()) o.insert(d.first); return o; }
// collections plus the bucket name of every pair X.files, X.chunks
static Names coll_names(const string& db) {
    Names o; auto d = simdb::server.dbs.find(db); if (d == simdb::server.dbs.end()) return o;
    for (auto& c : d->second) o.insert(c.first);
    for (auto& c : d->second) { auto& n = c.first; if (n.size() > 6 && n.substr(n.size() - 6) == ".files" && d->second.count(n.substr(0, n.size() - 6) + ".chunks")) o.insert(n.substr(0, n.size() - 6)); }
    return o;
}
static Names file_names(const string& db, const string& gfs) { Names o; for (auto& f : simdb::files(db, gfs)) if (!f.name.empty()) o.insert(f.name); return o; }
static simdb::Raw doc_of(int i, int group) { bson_t b; bson_init(&b); BSON_APPEND_INT32(&b, "_id", i); BSON_APPEND_INT32(&b, "GROUP", group); BSON_APPEND_UTF8(&b, "TEXT", string((size_t) (i % 7), 'x').c_str()); simdb::Raw r(bson_get_data(&b), bson_get_data(&b) + b.len); bson_destroy(&b); return r; }

static const char* kDbs[] = {"simdb", "model", "a", "DB2", "weather"};
static const char* kColls[] = {"SITELIST", "METEO_DATA", "x", "files", "SPATIAL.files", "SPATIAL.chunks", "a.b.files", "a.b.chunks", "half.files", "half2.chunks", "dots.in.name", "deep.SPATIAL.files", "chunks"};
static const char* kFiles[] = {"dem", "dem2", "slope", "DEM", "a/b c"};
static int g_next;
static void add_file(const string& db, const string& gfs) {
    bson_t m; bson_init(&m); 
    if (sim::flip(2, 3)) BSON_APPEND_INT32(&m, "SCENARIO", (int) sim::draw(3));
    if (sim::flip(1, 2)) { const char* u = sim::flip(1, 2) ? "mm" : "m"; BSON_APPEND_UTF8(&m, "UNIT", u); }
    if (sim::flip(1, 4)) BSON_APPEND_DOUBLE(&m, "K", 0.5);
    if (sim::flip(1, 6)) BSON_APPEND_BOOL(&m, "DONE", true);
    simdb::put_file(db, gfs, kFiles[sim::draw(5)], string(sim::draw(40), 'q'), sim::flip(1, 5) ? nullptr : &m); bson_destroy(&m);
}
static void change() {                 // what another client does in between
    string db = kDbs[sim::draw(5)];
    switch (sim::draw(3)) {
        case 0: simdb::coll(db, "new" + std::to_string(g_next++)); break;
        case 1: { string c = kColls[sim::draw(3)]; simdb::coll(db, c).docs.push_back(doc_of(1000 + g_next++, (int) sim::draw(3))); break; }
        default: add_file(kDb, kGfs);
    }
}
// result of a listing against the content before and after it
static void compare(const char* what, const Names& got, const Names& before, const Names& after, bool exact, bool ever_changed) {
    if (!exact) {
        Names all = before; for (auto& s : after) while (all.count(s) < after.count(s)) all.insert(s);
        for (auto& s : got) if (got.count(s) > all.count(s)) sim::violate("invented", "%s returned '%s' %zu times, the server holds it %zu times", what, s.c_str(), got.count(s), all.count(s));
        return;
    }
    if (!ever_changed) { if (got != before) sim::violate("incomplete", "%s returned %s, the server holds %s", what, show(got).c_str(), show(before).c_str()); return; }
    for (auto& s : before) if (after.count(s) && got.count(s) < std::min(before.count(s), after.count(s))) sim::violate("incomplete", "%s missed '%s', which the server held all the time", what, s.c_str());
    compare(what, got, before, after, false, true);
}
void prop_init() { mongo_init(); }
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    auto& dbs = simdb::server.dbs; dbs.clear(); simdb::disarm(); g_next = 0;
    int nd = (int) sim::draw(5); bool many = sim::flip(1, 6);
    for (int i = 0; i < nd; i++) {
        string db = kDbs[sim::draw(5)]; int nc = 1 + (int) sim::draw(8);
        for (int k = 0; k < nc; k++) { auto& c = simdb::coll(db, kColls[sim::draw(13)]); if (sim::flip(1, 2)) { int n = sim::flip(1, 8) ? 95 + (int) sim::draw(220) : (int) sim::draw(6); for (int j = 0; j < n; j++) c.docs.push_back(doc_of(g_next++, (int) sim::draw(3))); } }
        if (many && sim::flip(1, 2)) { int n = 95 + (int) sim::draw(20); for (int k = 0; k < n; k++) simdb::coll(db, "c" + std::to_string(k)); }
    }
    // the GridFS under test holds real files only
    dbs[kDb].erase(string(kGfs) + ".files"); dbs[kDb].erase(string(kGfs) + ".chunks"); if (dbs[kDb].empty()) dbs.erase(kDb);
    int nf = many && sim::flip(1, 2) ? 95 + (int) sim::draw(120) : (int) sim::draw(8);
    for (int i = 0; i < nf; i++) add_file(kDb, kGfs);
    if (sim::flip(1, 6)) { bson_t b; bson_init(&b); BSON_APPEND_INT32(&b, "_id", 5); BSON_APPEND_INT32(&b, "length", 0); BSON_APPEND_INT32(&b, "chunkSize", 100); simdb::coll(kDb, string(kGfs) + ".files").docs.push_back(simdb::Raw(bson_get_data(&b), bson_get_data(&b) + b.len)); bson_destroy(&b); }
    sim::log("%zu databases, %d files", dbs.size(), nf); for (auto& f : simdb::files(kDb, kGfs)) if (nf < 9) sim::log("%s %s", f.name.c_str(), simdb::raw_json(f.doc).c_str());

    LeakCheck lc;
    Client cl; bool up = cl.open(sim::flip(3, 4)); if (!up) sim::violate("refused-healthy", "no connection to a healthy server");
    vector<string> kept; string kept_db;     // a list filled before, to be replaced by the next listing
    bool clean = true;                       // no fault since the last time everything was calm
    auto call = [&](const char* what, std::function<void()> f) { guarded(what, f); };
    auto step = [&](bool armed) {
        uint64_t f0 = simdb::fault_count(), m0 = simdb::messages(), t0 = sim_ms() - simdb::delayed_ms(); bool changed = false; int at = armed && sim::flip(1, 4) ? (int) sim::draw(6) : -1;
        if (at >= 0) simdb::on_message = [&]() { if (at-- == 0) { change(); changed = true; } };
        auto exact = [&]() { return clean && simdb::fault_count() == f0; };
        string db = kDbs[sim::draw(5)]; auto names0 = db_names(); auto colls0 = coll_names(db); auto files0 = file_names(kDb, kGfs); size_t total = names0.size() + colls0.size() + files0.size();
        switch (sim::draw(8)) {
            case 0: {
                vector<string> v; bool reuse = exact() && sim::flip(1, 4) && !armed; if (reuse) v = kept;
                call("GetDatabaseNames", [&]() { cl.c->GetDatabaseNames(v); });
                compare("GetDatabaseNames", Names(v.begin(), v.end()), names0, db_names(), exact(), changed); kept = v; break;
            }
            case 1: {
                vector<string> v; bool reuse = exact() && sim::flip(1, 4) && !armed; if (reuse) v = kept;
                int way = (int) sim::draw(3);
                call("GetCollectionNames", [&]() {
                    if (way == 0) cl.c->GetCollectionNames(db, v);
                    else if (way == 1) { MongoDatabase d(cl.c->GetConn(), db); d.GetCollectionNames(v); }
                    else { MongoDatabase d(cl.c->GetDatabase(db)); d.GetCollectionNames(v); }
                });
                // libmongoc 1.26 loses the names it has when a later batch of them fails
                if (simdb::fault_count() > f0) lc.tolerated += (int64_t) colls0.size();
                compare("GetCollectionNames", Names(v.begin(), v.end()), colls0, coll_names(db), exact(), changed); kept = v; break;
            }
            case 2: {
                vector<string> v;
                if (cl.g && cl.g->GetGridFs() && sim::flip(1, 2)) call("GetFileNames", [&]() { cl.g->GetFileNames(v); });
                else call("GetGridFsFileNames", [&]() { cl.c->GetGridFsFileNames(kDb, kGfs, v); });
                compare("GetFileNames", Names(v.begin(), v.end()), files0, file_names(kDb, kGfs), exact(), changed); break;
            }
            case 3: {
                string cn = kColls[sim::draw(4)]; auto has = [&]() { auto d = dbs.find(db); return d != dbs.end() && d->second.count(cn) > 0; }; auto size = [&]() { return has() ? (vint) dbs[db][cn].docs.size() : 0; };
                bool h0 = has(); vint n0 = size(); mongoc_collection_t* c = nullptr; vint n = -2;
                call("GetCollection", [&]() { c = cl.c->GetCollection(db, cn); });
                if (c && !has()) sim::violate("invented", "collection %s.%s is not on the server", db.c_str(), cn.c_str());
                if (!c && h0 && exact()) sim::violate("incomplete", "collection %s.%s is not found", db.c_str(), cn.c_str());
                if (!c) break;
                uint64_t f1 = simdb::fault_count(); bool was = exact();
                call("QueryRecordsCount", [&]() { MongoCollection mc(c); n = mc.QueryRecordsCount(); });
                (void) f1; (void) was; total += (size_t) size();
                vint n1 = size();
                if (exact() ? n < std::min(n0, n1) || n > std::max(n0, n1) : n != -1 && (n < std::min(n0, n1) || n > std::max(n0, n1))) sim::violate(n == -1 ? "refused-healthy" : "wrong-count", "QueryRecordsCount of %s.%s gives %ld, the server holds %ld", db.c_str(), cn.c_str(), (long) n, (long) n1);
                break;
            }
            case 4: {
                string cn = kColls[sim::draw(4)]; auto all = [&]() { auto d = dbs.find(db); return d != dbs.end() && d->second.count(cn) ? d->second[cn].docs : vector<simdb::Raw>(); };
                int grp = (int) sim::draw(4); auto in = [&](const simdb::Raw& r) { double d = -1; bson_t b; bson_iter_t it; bson_init_static(&b, r.data(), r.size()); if (bson_iter_init_find(&it, &b, "GROUP")) d = bson_iter_as_int64(&it); return grp == 3 || d == grp; };
                vector<simdb::Raw> b4, got; for (auto& r : all()) if (in(r)) b4.push_back(r);
                int limit = sim::flip(1, 4) ? 1 + (int) sim::draw(120) : 0; bool err = false;
                call("ExecuteQuery", [&]() {
                    MongoCollection mc(mongoc_client_get_collection(cl.c->GetConn(), db.c_str(), cn.c_str())); bson_t q, o; bson_init(&q); bson_init(&o); if (grp < 3) BSON_APPEND_INT32(&q, "GROUP", grp); if (limit) BSON_APPEND_INT64(&o, "limit", limit);
                    mongoc_cursor_t* cu = mc.ExecuteQuery(&q, limit ? &o : nullptr); const bson_t* d; bson_error_t e; if (!cu) { err = true; bson_destroy(&q); bson_destroy(&o); return; }
                    while (mongoc_cursor_next(cu, &d)) got.push_back(simdb::Raw(bson_get_data(d), bson_get_data(d) + d->len));
                    err = mongoc_cursor_error(cu, &e); mongoc_cursor_destroy(cu); bson_destroy(&q); bson_destroy(&o);
                });
                vector<simdb::Raw> after; for (auto& r : all()) if (in(r)) after.push_back(r);
                total += after.size();
                size_t lo = b4.size(), hi = after.size(); if (limit) { lo = std::min<size_t>(lo, (size_t) limit); hi = std::min<size_t>(hi, (size_t) limit); }
                if (got.size() > hi || (!err && got.size() < lo)) sim::violate("wrong-query", "a query of %s.%s gives %zu documents, the server holds %zu", db.c_str(), cn.c_str(), got.size(), hi);
                for (size_t i = 0; i < got.size(); i++) if (got[i] != after[i]) sim::violate("wrong-query", "document %zu of a query of %s.%s is not the server's", i, db.c_str(), cn.c_str());
                if (err && exact()) sim::violate("refused-healthy", "a query fails on a healthy server");
                break;
            }
            default: {
                if (!cl.g || !cl.g->GetGridFs()) break;
                string name = kFiles[sim::draw(5)]; STRING_MAP o; if (sim::flip(1, 2)) o["SCENARIO"] = std::to_string(sim::draw(3)); if (sim::flip(1, 3)) o["UNIT"] = sim::flip(1, 2) ? "mm" : "m"; if (sim::flip(1, 6)) o["K"] = "0.5";
                auto match = [&](const simdb::File& f) {
                    if (f.name != name) return false;
                    for (auto& kv : o) { bson_t b; bson_iter_t it; if (f.meta.empty() || !bson_init_static(&b, f.meta.data(), f.meta.size()) || !bson_iter_init_find(&it, &b, kv.first.c_str())) return false;
                        if (BSON_ITER_HOLDS_UTF8(&it) ? kv.second != bson_iter_utf8(&it, nullptr) : bson_iter_as_double(&it) != atof(kv.second.c_str())) return false; }
                    return true;
                };
                bool any0 = false; for (auto& f : simdb::files(kDb, kGfs)) any0 |= match(f);
                simdb::Raw id, meta; bool found = false; bool by_meta = sim::flip(1, 2);
                if (by_meta) call("GetFileMetadata", [&]() { bson_t* b = cl.g->GetFileMetadata(name, nullptr, o); if (b) { found = true; meta.assign(bson_get_data(b), bson_get_data(b) + b->len);
                    vint32_t sc = -5; double k = -5; bool has = GetNumericFromBson(b, "SCENARIO", sc), hk = GetNumericFromBson(b, "K", k); bson_iter_t it; 
                    if (has != (bson_iter_init_find(&it, b, "SCENARIO")) || (has && sc != bson_iter_int32(&it)) || (!has && sc != -5)) sim::violate("wrong-field", "SCENARIO of '%s' is taken as %d", name.c_str(), sc);
                    if (hk != bson_iter_init_find(&it, b, "K") || (hk && k != 0.5)) sim::violate("wrong-field", "K of '%s' is taken as %g", name.c_str(), k);
                    string u = GetStringFromBson(b, "UNIT"); if (u != (bson_iter_init_find(&it, b, "UNIT") ? bson_iter_utf8(&it, nullptr) : "")) sim::violate("wrong-field", "UNIT of '%s' is taken as '%s'", name.c_str(), u.c_str());
                    if (GetBoolFromBson(b, "DONE") != bool(bson_iter_init_find(&it, b, "DONE"))) sim::violate("wrong-field", "DONE of '%s' is taken wrongly", name.c_str());
                    bson_destroy(b); } });
                else call("GetFile", [&]() { mongoc_gridfs_file_t* f = cl.g->GetFile(name, nullptr, o); if (f) { found = true; const bson_value_t* v = mongoc_gridfs_file_get_id(f); bson_t k; bson_init(&k); bson_append_value(&k, "v", -1, v); id.assign(bson_get_data(&k), bson_get_data(&k) + k.len); bson_destroy(&k); mongoc_gridfs_file_destroy(f); } });
                string os; for (auto& kv : o) os += " " + kv.first + "=" + kv.second;
                bool any1 = false, right = false; for (auto& f : simdb::files(kDb, kGfs)) if (match(f)) { any1 = true; if (by_meta ? (f.has_meta ? f.meta == meta : meta.size() == 5) : f.id == id) right = true; }
                if (found && !right) sim::violate("wrong-file", "looking for '%s'%s gives a file that does not match: %s", name.c_str(), os.c_str(), simdb::raw_json(by_meta ? meta : id).c_str());
                if (!found && any0 && exact()) sim::violate("incomplete", "'%s'%s is stored but not found", name.c_str(), os.c_str());
                (void) any1;
            }
        }
        simdb::on_message = nullptr;
        uint64_t msgs = simdb::messages() - m0, ms = sim_ms() - simdb::delayed_ms() - t0, faults = simdb::fault_count() - f0;
        if (msgs > 80 + total * 2) sim::violate("unbounded", "one call took %llu messages", (unsigned long long) msgs);
        if (ms > 20000 + faults * 320000) sim::violate("unbounded-time", "one call took %llu ms of simulated time with %llu faults", (unsigned long long) ms, (unsigned long long) faults);
        if (faults) { clean = false; sim::mark_nontrivial(); }
        if (changed) sim::mark_nontrivial();
    };
    int rounds = 1 + (int) sim::draw(3);
    for (int r = 0; r < rounds; r++) {
        int k = (int) sim::draw(4);
        simdb::arm(gen_net(kReadFaults, 14));
        for (int i = 0; i < k; i++) step(true);
        calm();
        // the first call after a lost connection may have to find that out
        if (!clean) { vector<string> v; guarded("GetDatabaseNames", [&]() { cl.c->GetDatabaseNames(v); }); Names got(v.begin(), v.end()); compare("GetDatabaseNames", got, db_names(), db_names(), false, false); }
        clean = true;
        k = 1 + (int) sim::draw(3);
        for (int i = 0; i < k; i++) step(false);
    }
    cl.close();
    lc.check("after listing and looking up", true);
    if (simdb::open_cursors()) sim::log("%d cursors left on the server", simdb::open_cursors());
}
