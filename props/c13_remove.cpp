#include "props/mongo_common.h"
const char* const kPropertyId = "C13";
const char* const kRule = "over histories of writes and removals (by name, by name and metadata; faults at any message, death of the client, another client removing, reading or writing in between): success -> every matching file is gone from listing, lookup and chunks; "
    "files that do not match are untouched at any time; failure only with a fault; a file that is still listed under a reported failure is either complete or refused by readers; the next fault-free removal succeeds; no leak.";
const char* const kRealComponents = MONGO_REAL;
const char* const kStubComponents = MONGO_STUB;

static const char* kNames[] = {"dem", "dem2", "de", "slope", "DEM"};
// options as a caller gives them: text, the library makes numbers of numeric text
struct Sel { STRING_MAP m; bool accepts(const simdb::Raw& meta) const {
    for (auto& kv : m) {
        bson_t b; bson_iter_t it; if (meta.empty() || !bson_init_static(&b, meta.data(), meta.size()) || !bson_iter_init_find(&it, &b, kv.first.c_str())) return false;
        char* end; double w = strtod(kv.second.c_str(), &end); bool num = !kv.second.empty() && !*end;
        if (num) { if (BSON_ITER_HOLDS_INT32(&it)) { if (bson_iter_int32(&it) != w) return false; } else if (BSON_ITER_HOLDS_INT64(&it)) { if ((double) bson_iter_int64(&it) != w) return false; } else if (BSON_ITER_HOLDS_DOUBLE(&it)) { if (bson_iter_double(&it) != w) return false; } else return false; }
        else if (!BSON_ITER_HOLDS_UTF8(&it) || kv.second != bson_iter_utf8(&it, nullptr)) return false;
    }
    return true;
} };
static Meta gen_small_meta() {
    Meta m; static const char* scen[] = {"i:0", "i:7", "d:0.5", "l:5000000000", "s:base"}; static const char* unit[] = {"s:m", "s:mm", "s:", "s:M"};
    if (sim::flip(3, 4)) m.kv.push_back({"SCENARIO", scen[sim::draw(5)]});
    if (sim::flip(1, 2)) m.kv.push_back({"UNIT", unit[sim::draw(4)]});
    if (sim::flip(1, 4)) m.kv.push_back({"DATE", "t:1500000000000"});
    return m;
}
static Sel gen_sel() {
    Sel s; static const char* scen[] = {"0", "7", "0.5", "5000000000", "base"}; static const char* unit[] = {"m", "mm", "", "M"};
    int n = (int) sim::weighted({3, 3, 2, 1});
    if (n == 1 || n == 2) s.m["SCENARIO"] = scen[sim::draw(5)];
    if (n >= 2) s.m["UNIT"] = unit[sim::draw(4)];
    return s;
}
static string show(const Sel& s) { string o; for (auto& kv : s.m) o += " " + kv.first + "=" + kv.second; return o; }
static void put_direct(const string& name, const string& data, const Meta& meta) {
    bson_t m; bson_init(&m); meta.to_bson(&m); bson_value_t id; memset(&id, 0, sizeof id); bool own = sim::flip(1, 6);
    static int next = 100; id.value_type = BSON_TYPE_INT32; id.value.v_int32 = next++;
    static const int cs[] = {261120, 261120, 100, 1000}; int c = cs[sim::draw(4)]; if (data.size() / (size_t) c > 100) c = 261120;
    simdb::put_file(kDb, kGfs, name, data, meta.kv.empty() && sim::flip(1, 2) ? nullptr : &m, c, own ? &id : nullptr); bson_destroy(&m);
}
static bool is(const simdb::File& f, const string& name, const Sel& s) { return f.name == name && s.accepts(f.meta); }
// every file that does not match is as it was; extra: files somebody else stored meanwhile
static void untouched(const Files& before, const string& name, const Sel& sel, const char* when) {
    auto now = simdb::files(kDb, kGfs);
    for (auto& b : before) {
        if (is(b, name, sel)) continue;
        bool found = false;
        for (auto& f : now) if (f.id == b.id) { found = true; if (f.doc != b.doc || f.data != b.data || f.complete != b.complete) sim::violate("bystander", "%s: '%s' %s was changed", when, b.name.c_str(), simdb::raw_json(b.meta).c_str()); }
        if (!found) sim::violate("bystander-removed", "%s: '%s' %s was removed", when, b.name.c_str(), simdb::raw_json(b.meta).c_str());
    }
}
static int matching_chunks(const Files& before, const string& name, const Sel& sel) {
    int n = 0; 
    for (auto& c : simdb::coll(kDb, string(kGfs) + ".chunks").docs) {
        bson_t b; bson_iter_t it; bson_init_static(&b, c.data(), c.size()); if (!bson_iter_init_find(&it, &b, "files_id")) continue;
        bson_t k; bson_init(&k); bson_append_value(&k, "v", -1, bson_iter_value(&it)); simdb::Raw id(bson_get_data(&k), bson_get_data(&k) + k.len); bson_destroy(&k);
        for (auto& f : before) if (is(f, name, sel) && f.id == id) n++;
    }
    return n;
}
static void gone(MongoGridFs* g, const Files& before, const string& name, const Sel& sel, const char* when, bool chunks = true) {
    Files now = simdb::files(kDb, kGfs); size_t left = 0, same_name = 0;
    for (auto& f : now) { left += is(f, name, sel); same_name += f.name == name; }
    if (left) sim::violate("not-removed", "%s: removal of '%s'%s reported success, %zu matching files are still stored", when, name.c_str(), show(sel).c_str(), left);
    int c = matching_chunks(before, name, sel);
    if (c && chunks) sim::violate("chunks-left", "%s: removal of '%s'%s reported success, %d of its data chunks are still stored", when, name.c_str(), show(sel).c_str(), c);
    if (!g) return;
    vector<string> names; guarded("GetFileNames", [&]() { g->GetFileNames(names); });
    size_t listed = 0; for (auto& s : names) listed += s == name;
    if (listed != same_name) sim::violate("listing", "%s: '%s' is listed %zu times, %zu are stored", when, name.c_str(), listed, same_name);
    char* buf = nullptr; vint len = 0; bool ok = false; STRING_MAP o = sel.m;
    guarded("GetStreamData", [&]() { ok = g->GetStreamData(name, buf, len, nullptr, &o); });
    if (ok) sim::violate("still-readable", "%s: '%s'%s can be read after its removal", when, name.c_str(), show(sel).c_str());
}
static bool remove(MongoGridFs* g, const string& name, const Sel& sel, const char* who) {
    bool ok = false; STRING_MAP o = sel.m;
    guarded("RemoveFile", [&]() { ok = o.empty() && sim::flip(1, 2) ? g->RemoveFile(name) : g->RemoveFile(name, nullptr, o); });
    sim::log("%s: remove '%s'%s -> %d", who, name.c_str(), show(sel).c_str(), ok);
    return ok;
}
// a read gives the complete bytes of one stored file of that name, or fails
static void read_whole(MongoGridFs* g, const string& name, const Files& known, const char* who) {
    char* buf = nullptr; vint len = -1; bool ok = false, match = false;
    guarded("GetStreamData", [&]() { ok = g->GetStreamData(name, buf, len); });
    if (ok) for (auto& f : known) match |= f.name == name && f.data.size() == (size_t) len && !memcmp(f.data.data(), buf, (size_t) len);
    if (ok && !match) sim::violate("partial-read", "%s: a read of '%s' gives %d bytes that are no stored file's", who, name.c_str(), (int) len);
    if (!ok && buf) sim::violate("partial-result", "%s: a failed read left %d bytes", who, (int) len);
    delete[] buf;
}
void prop_init() { mongo_init(); }
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    simdb::server.dbs.clear(); simdb::disarm();
    bool many = sim::flip(1, 12); int n = many ? 100 + (int) sim::draw(20) : 1 + (int) sim::draw(7);
    for (int i = 0; i < n; i++) put_direct(kNames[many && i % 8 ? 0 : sim::draw(5)], many ? string((size_t) (i % 3), 'x') : gen_bytes(), many ? Meta() : gen_small_meta());
    if (many) sim::log("%d files", n);
    { MongoGridFs none; bool ok = none.RemoveFile("dem"); if (ok) sim::violate("success-without-database", "a removal without any GridFS reported success"); }
    LeakCheck lc;
    int steps = 1 + (int) sim::draw(4);
    for (int s = 0; s < steps; s++) {
        string name = kNames[sim::weighted({4, 1, 1, 1, 1})]; Sel sel = gen_sel();
        if (s) for (int i = (int) sim::draw(3); i > 0; i--) put_direct(kNames[sim::draw(5)], gen_bytes(), gen_small_meta());
        Files before = simdb::files(kDb, kGfs);
        int target = 0; for (auto& f : before) target += is(f, name, sel);
        int mode = (int) sim::weighted({5, 2, 2, 2, 1}); bool ok = false; uint64_t f0 = simdb::fault_count();
        bool up = true;
        if (mode <= 1) {
            Client cl; auto rules = gen_net(kWriteFaults, many ? 60 : 16, 2);
            if (mode == 1) { rules.clear(); simdb::kill_client_after(4 + (int) sim::draw(14)); }
            bool late = sim::flip(2, 3);
            if (!late) simdb::arm(rules);
            up = cl.open();
            if (late) simdb::arm(rules);
            if (cl.g) ok = remove(cl.g, name, sel, "client");
            if (mode == 1 && simdb::client_dead()) { ok = false; sim::mark_nontrivial(); up = false; }
            if (mode == 1) simdb::revive();
            bool fired = simdb::fault_count() > f0 || !up;
            if (fired) sim::mark_nontrivial();
            if (!ok && !fired) sim::violate("refused-healthy", "removing '%s' failed on a healthy server", name.c_str());
            if (!up && ok) sim::violate("success-without-database", "removal reported success without a GridFS");
            simdb::disarm();
            untouched(before, name, sel, "after a removal");
            if (ok) gone(nullptr, before, name, sel, "after a removal");
        } else {
            // two clients between each other's messages: a second removal, a reader, or a writer
            bool ok2 = true; auto rules = gen_net(kWriteFaults, 30, 4); Files known = before; string data = gen_bytes(); string wname = kNames[sim::draw(5)]; bool stored = false;
            simdb::yield_points = true; simdb::arm(rules);
            simthr::spawn([&]() { Client a; if (a.open()) ok = remove(a.g, name, sel, "client"); }, "remover");
            simthr::spawn([&]() {
                Client b; if (!b.open()) { ok2 = false; return; }
                if (mode == 2) ok2 = remove(b.g, name, sel, "second");
                else if (mode == 3) for (int i = 0; i < 3; i++) { read_whole(b.g, name, known, "reader"); simthr::yield(); }
                else { bson_t m; bson_init(&m); BSON_APPEND_UTF8(&m, "UNIT", "other"); string copy = data; char* p = &copy[0]; guarded("WriteStreamData", [&]() { stored = b.g->WriteStreamData(wname, p, (int) data.size(), &m); }); bson_destroy(&m); }
            }, "other");
            simthr::join_all(); simdb::yield_points = false; simdb::disarm();
            sim::mark_nontrivial();
            bool fired = simdb::fault_count() > f0;
            if (!fired && (!ok || !ok2)) sim::violate("refused-healthy", "removing '%s' failed on a healthy server", name.c_str());
            untouched(before, name, sel, "after a removal");
            if (mode == 2 && !ok2) before = simdb::files(kDb, kGfs);      // chunks of what the other failed to remove are not this one's
            if (mode != 4 && ok) gone(nullptr, before, name, sel, "after a removal beside another client");
            if (mode == 4 && stored) {
                // a file stored beside the removal is there completely unless it was removed as matching
                bool found = false; for (auto& f : simdb::files(kDb, kGfs)) found |= f.name == wname && f.complete && f.data == data && simdb::raw_json(f.meta).find("other") != string::npos;
                Sel other = sel; bson_t m; bson_init(&m); BSON_APPEND_UTF8(&m, "UNIT", "other"); simdb::Raw r(bson_get_data(&m), bson_get_data(&m) + m.len); bson_destroy(&m);
                if (!found && !(wname == name && other.accepts(r))) sim::violate("bystander-removed", "'%s' stored by another client is gone after the removal of '%s'%s", wname.c_str(), name.c_str(), show(sel).c_str());
            }
            if (mode == 4) ok = false;               // what was written in between may match
        }
        calm();
        // whatever happened: readers see whole files, a fault-free removal succeeds
        Client cl; if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy");
        if (ok) gone(cl.g, before, name, sel, "after the faults");
        else {
            Files again = simdb::files(kDb, kGfs), known = before; known.insert(known.end(), again.begin(), again.end());
            if (target) read_whole(cl.g, name, known, "after a failed removal");
            if (!remove(cl.g, name, sel, "again")) sim::violate("no-recovery", "a fault-free removal of '%s' fails after an earlier one met faults", name.c_str());
            untouched(again, name, sel, "after the faults");
            gone(cl.g, again, name, sel, "after the faults");
        }
    }
    lc.check("after removing", true);
}
