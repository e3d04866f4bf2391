#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <execinfo.h>
#include "mongo.h"
#include "rt.h"
#include "clock.h"
#include "thr.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <poll.h>
#include <set>

namespace simdb {
Server server;
bool yield_points = false;
std::function<void()> on_message;
static std::vector<Rule> g_rules;
static uint64_t g_msgs = 0, g_faults = 0;
static int64_t g_kill_in = -1;
static bool g_dead = false;
static int64_t g_blocks = 0;
static int g_streams = 0;
static uint64_t g_epoch = 0;       // server incarnation
static uint64_t g_client_gen = 0;  // client process generation

const char* kind_name(int k) {
    static const char* n[] = {"none", "connection-refused", "connection-timeout", "drop-before-request", "drop-after-request", "partial-reply", "request-timeout",
                              "reply-timeout", "server-error", "write-error", "write-concern-error", "partial-write", "server-restart", "slow-reply"};
    return n[k];
}
int64_t bson_blocks() { return g_blocks; }
int open_streams() { return g_streams; }
uint64_t fault_count() { return g_faults; }
static uint64_t g_errs = 0, g_delay_ms = 0;
uint64_t delayed_ms() { return g_delay_ms; }
uint64_t error_replies() { return g_errs; }
uint64_t messages() { return g_msgs; }
void arm(const std::vector<Rule>& rules) { g_rules = rules; for (auto& r : g_rules) r.hits = r.seen = 0; }
void disarm() { g_rules.clear(); }
void kill_client_after(int n) { g_kill_in = n; }
void cut_client() { g_dead = true; }
bool client_dead() { return g_dead; }
void revive() { g_dead = false; g_kill_in = -1; g_client_gen++; }

Rule draw_rule(const std::vector<int>& kinds, int span) {
    Rule r;
    r.kind = kinds[sim::draw((uint32_t) kinds.size())];
    static const std::vector<std::string> which = {"", "read", "write"};
    if (r.kind == REFUSE || r.kind == CONN_HANG) { r.cmd = "connect"; r.nth = (int) sim::skewed(4); }
    else if (r.kind == WRITE_ERR || r.kind == WC_ERR || r.kind == PARTIAL) { r.cmd = "write"; r.nth = (int) sim::skewed((uint32_t) span); }
    else { r.cmd = which[sim::draw(3)]; r.nth = (int) sim::skewed((uint32_t) span); }
    if (r.kind != REFUSE && r.kind != CONN_HANG && sim::flip(1, 3)) r.coll = sim::flip(1, 2) ? "chunks" : "files";
    r.count = sim::flip(1, 3) ? (sim::flip(1, 3) ? -1 : 1 + (int) sim::skewed(12)) : 1;
    r.arg = sim::draw(1000);
    return r;
}
static int match(const std::string& cmd, const std::string& coll, bool iswrite, uint32_t* arg) {
    int k = NONE;
    for (auto& r : g_rules) {
        if (r.cmd == "connect" ? cmd != "connect" : cmd == "connect") continue;
        if (r.cmd == "read" && iswrite) continue;
        if (r.cmd == "write" && !iswrite) continue;
        if (!r.cmd.empty() && r.cmd != "connect" && r.cmd != "read" && r.cmd != "write" && r.cmd != cmd) continue;
        if (!r.coll.empty() && (coll.size() < r.coll.size() || coll.compare(coll.size() - r.coll.size(), r.coll.size(), r.coll) != 0)) continue;
        int i = r.seen++;
        if (i < r.nth || (r.count >= 0 && i >= r.nth + r.count)) continue;
        if ((r.kind == WRITE_ERR || r.kind == WC_ERR) && cmd != "insert" && cmd != "update" && cmd != "delete") continue;
        if (r.kind == PARTIAL && cmd != "insert" && cmd != "delete") continue;
        if (k == NONE) { k = r.kind; *arg = r.arg; r.hits++; }
    }
    return k;
}
static void fired(int k, const std::string& what) {
    if (k != DELAY) g_faults++;
    if (k == ERR) g_errs++;
    sim::fault_fired(kind_name(k));
    sim::log("net fault %s on %s", kind_name(k), what.c_str());
}

// ---- BSON helpers -----------------------------------------------------------
struct B {   // owning bson_t
    bson_t b;
    B() { bson_init(&b); }
    ~B() { bson_destroy(&b); }
    B(const B&) = delete;
    Raw raw() const { const uint8_t* p = bson_get_data(&b); return Raw(p, p + b.len); }
};
static bool view(const Raw& r, bson_t* b) { return bson_init_static(b, r.data(), r.size()); }
std::string raw_json(const Raw& r) {
    bson_t b; if (r.empty() || !view(r, &b)) return "?";
    char* s = bson_as_relaxed_extended_json(&b, nullptr); std::string o = s ? s : "?"; bson_free(s); return o;
}
static bool num(const bson_iter_t* it, double* d) {
    switch (bson_iter_type(it)) {
        case BSON_TYPE_INT32: *d = bson_iter_int32(it); return true;
        case BSON_TYPE_INT64: *d = (double) bson_iter_int64(it); return true;
        case BSON_TYPE_DOUBLE: *d = bson_iter_double(it); return true;
        default: return false;
    }
}
static Raw one(const bson_iter_t* it) { B o; bson_append_iter(&o.b, "v", 1, it); return o.raw(); }
static bool same(const bson_iter_t* a, const bson_iter_t* b) {
    double x, y;
    if (num(a, &x) && num(b, &y)) return x == y || (x != x && y != y);
    if (bson_iter_type(a) != bson_iter_type(b)) return false;
    return one(a) == one(b);
}
static bool find_path(const Raw& d, const char* path, bson_iter_t* out, bson_t* hold) {
    bson_iter_t it;
    if (!view(d, hold) || !bson_iter_init(&it, hold)) return false;
    if (strchr(path, '.')) return bson_iter_find_descendant(&it, path, out);
    *out = it;
    return bson_iter_find(out, path);
}
static int cmpv(const bson_iter_t* a, const bson_iter_t* b) {
    double x, y;
    if (num(a, &x) && num(b, &y)) return x < y ? -1 : x > y;
    if (bson_iter_type(a) == BSON_TYPE_UTF8 && bson_iter_type(b) == BSON_TYPE_UTF8) return strcmp(bson_iter_utf8(a, nullptr), bson_iter_utf8(b, nullptr));
    return 0;
}
static bool matches(const Raw& doc, const bson_t* filter) {
    bson_iter_t f;
    if (!bson_iter_init(&f, filter)) return false;
    while (bson_iter_next(&f)) {
        const char* key = bson_iter_key(&f);
        bson_t hold; bson_iter_t v;
        bool has = find_path(doc, key, &v, &hold);
        if (key[0] == '$') sim::harness_error("simulated server: operator %s in a filter", key);
        if (bson_iter_type(&f) == BSON_TYPE_DOCUMENT) {
            bson_iter_t op;
            bson_iter_recurse(&f, &op);
            bool isop = false, ok = true;
            bson_iter_t probe = op;
            if (bson_iter_next(&probe) && bson_iter_key(&probe)[0] == '$') isop = true;
            if (isop) {
                while (bson_iter_next(&op)) {
                    std::string o = bson_iter_key(&op);
                    if (o == "$gte") ok = ok && has && cmpv(&v, &op) >= 0;
                    else if (o == "$gt") ok = ok && has && cmpv(&v, &op) > 0;
                    else if (o == "$lte") ok = ok && has && cmpv(&v, &op) <= 0;
                    else if (o == "$lt") ok = ok && has && cmpv(&v, &op) < 0;
                    else if (o == "$ne") ok = ok && !(has && same(&v, &op));
                    else if (o == "$eq") ok = ok && has && same(&v, &op);
                    else if (o == "$exists") ok = ok && (has == bson_iter_as_bool(&op));
                    else if (o == "$in") {
                        bson_iter_t e; bool any = false; bson_iter_recurse(&op, &e);
                        while (bson_iter_next(&e)) if (has && same(&v, &e)) any = true;
                        ok = ok && any;
                    } else sim::harness_error("simulated server: operator %s in a filter", o.c_str());
                }
                if (!ok) return false;
                continue;
            }
        }
        if (!has) { if (bson_iter_type(&f) == BSON_TYPE_NULL) continue; return false; }
        if (!same(&v, &f)) return false;
    }
    return true;
}
Coll& coll(const std::string& db, const std::string& name) { return server.dbs[db][name]; }

// ---- cursors ----------------------------------------------------------------
struct Cursor { std::string ns; std::vector<Raw> rest; size_t pos = 0; };
static std::map<int64_t, Cursor> g_cursors;
static int64_t g_next_cursor = 7000;
int open_cursors() { return (int) g_cursors.size(); }

static void cursor_reply(B* reply, const std::string& ns, std::vector<Raw> docs, int64_t batch, bool single) {
    size_t n = docs.size();
    size_t first = n;
    if (batch >= 0 && (size_t) batch < n) first = (size_t) batch;
    if (!single && n > 0 && sim::flip(1, 2)) first = std::min<size_t>(first, sim::draw((uint32_t) n + 1));   // a batch may be shorter than asked for
    bson_t cur, arr;
    int64_t id = 0;
    if (first < n && !single) {
        id = g_next_cursor++;
        Cursor c; c.ns = ns; c.rest.assign(docs.begin() + first, docs.end());
        g_cursors[id] = c;
        sim::probe("multi-batch-cursor");
    }
    bson_append_document_begin(&reply->b, "cursor", -1, &cur);
    bson_append_array_begin(&cur, "firstBatch", -1, &arr);
    for (size_t i = 0; i < first; i++) { bson_t d; view(docs[i], &d); bson_append_document(&arr, std::to_string(i).c_str(), -1, &d); }
    bson_append_array_end(&cur, &arr);
    bson_append_int64(&cur, "id", -1, id);
    bson_append_utf8(&cur, "ns", -1, ns.c_str(), -1);
    bson_append_document_end(&reply->b, &cur);
    BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
}
static void err_reply(B* reply, int code, const char* name, const char* msg) {
    BSON_APPEND_DOUBLE(&reply->b, "ok", 0.0);
    BSON_APPEND_UTF8(&reply->b, "errmsg", msg);
    BSON_APPEND_INT32(&reply->b, "code", code);
    BSON_APPEND_UTF8(&reply->b, "codeName", name);
}
static void hello_reply(B* reply) {
    BSON_APPEND_BOOL(&reply->b, "helloOk", true);
    BSON_APPEND_BOOL(&reply->b, "ismaster", true);
    BSON_APPEND_BOOL(&reply->b, "isWritablePrimary", true);
    BSON_APPEND_INT32(&reply->b, "maxBsonObjectSize", 16777216);
    BSON_APPEND_INT32(&reply->b, "maxMessageSizeBytes", 48000000);
    BSON_APPEND_INT32(&reply->b, "maxWriteBatchSize", 100000);
    BSON_APPEND_INT32(&reply->b, "logicalSessionTimeoutMinutes", 30);
    BSON_APPEND_INT32(&reply->b, "minWireVersion", 0);
    BSON_APPEND_INT32(&reply->b, "maxWireVersion", 17);
    BSON_APPEND_BOOL(&reply->b, "readOnly", false);
    BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
}

// ---- commands ---------------------------------------------------------------
struct Request {
    std::string cmd, db, coll;
    bson_t body;                                           // view
    std::map<std::string, std::vector<Raw> > seqs;         // document sequences
    std::vector<uint8_t> bytes;
    bool legacy = false; int32_t id = 0;
};
static std::vector<Raw> seq(const Request& r, const char* name) {
    auto it = r.seqs.find(name);
    if (it != r.seqs.end()) return it->second;
    std::vector<Raw> out;
    bson_iter_t i, a;
    if (bson_iter_init_find(&i, &r.body, name) && bson_iter_recurse(&i, &a))
        while (bson_iter_next(&a)) { uint32_t len; const uint8_t* d; bson_iter_document(&a, &len, &d); out.emplace_back(d, d + len); }
    return out;
}
static bool sub(const bson_t* b, const char* key, bson_t* out) {
    bson_iter_t i; uint32_t len; const uint8_t* d;
    if (!bson_iter_init_find(&i, b, key) || bson_iter_type(&i) != BSON_TYPE_DOCUMENT) return false;
    bson_iter_document(&i, &len, &d);
    return bson_init_static(out, d, len);
}
static int64_t geti(const bson_t* b, const char* key, int64_t def) {
    bson_iter_t i;
    if (!bson_iter_init_find(&i, b, key)) return def;
    return bson_iter_as_int64(&i);
}
static bool has_id(const Raw& d) { bson_t b; bson_iter_t i; return view(d, &b) && bson_iter_init_find(&i, &b, "_id"); }
static void fresh_oid(bson_oid_t* o) { static uint32_t n; uint8_t d[12] = {0x51, 0x6d}; ++n; for (int i = 0; i < 4; i++) d[11 - i] = (uint8_t) (n >> 8 * i); bson_oid_init_from_data(o, d); }
static Raw with_id(const Raw& d) {
    if (has_id(d)) return d;
    B o; bson_oid_t oid; fresh_oid(&oid);
    BSON_APPEND_OID(&o.b, "_id", &oid);
    bson_t b; view(d, &b); bson_concat(&o.b, &b);
    return o.raw();
}
static bool dup(const Coll& c, const Raw& d, const Raw* skip) {
    bson_t hold; bson_iter_t id;
    bool hasid = find_path(d, "_id", &id, &hold);
    for (auto& e : c.docs) {
        if (&e == skip) continue;
        bson_t h2; bson_iter_t v;
        if (hasid && find_path(e, "_id", &v, &h2) && same(&v, &id)) return true;
    }
    for (auto& ix : c.indexes) {
        bson_t b, key; view(ix, &b);
        bson_iter_t u;
        if (!bson_iter_init_find(&u, &b, "unique") || !bson_iter_as_bool(&u) || !sub(&b, "key", &key)) continue;
        for (auto& e : c.docs) {
            if (&e == skip) continue;
            bson_iter_t k; bson_iter_init(&k, &key);
            bool all = true;
            while (bson_iter_next(&k)) {
                bson_t h1, h2; bson_iter_t v1, v2;
                bool a1 = find_path(d, bson_iter_key(&k), &v1, &h1), a2 = find_path(e, bson_iter_key(&k), &v2, &h2);
                if (a1 != a2 || (a1 && !same(&v1, &v2))) { all = false; break; }
            }
            if (all) return true;
        }
    }
    return false;
}
static Raw apply_update(const Raw* old, const bson_t* q, const bson_t* u) {
    bson_iter_t it;
    bson_iter_init(&it, u);
    bool ops = false;
    { bson_iter_t p = it; if (bson_iter_next(&p) && bson_iter_key(&p)[0] == '$') ops = true; }
    B out;
    auto qid = [&](bson_iter_t* i) { return bson_iter_init_find(i, q, "_id") && !(bson_iter_type(i) == BSON_TYPE_DOCUMENT); };
    if (!ops) {
        bson_iter_t i; bson_t hold;
        bool uid = bson_iter_init_find(&i, u, "_id");
        if (!uid) {
            if (old && find_path(*old, "_id", &i, &hold)) bson_append_iter(&out.b, "_id", 3, &i);
            else if (qid(&i)) bson_append_iter(&out.b, "_id", 3, &i);
            else { bson_oid_t o; fresh_oid(&o); BSON_APPEND_OID(&out.b, "_id", &o); }
        }
        bson_concat(&out.b, u);
        return out.raw();
    }
    std::vector<std::pair<std::string, Raw> > fields;      // name -> one()
    auto set = [&](const char* k, const bson_iter_t* v) {
        if (strchr(k, '.')) sim::harness_error("simulated server: dotted update of %s", k);
        for (auto& f : fields) if (f.first == k) { f.second = one(v); return; }
        fields.emplace_back(k, one(v));
    };
    if (old) {
        bson_t b; view(*old, &b); bson_iter_t i; bson_iter_init(&i, &b);
        while (bson_iter_next(&i)) set(bson_iter_key(&i), &i);
    } else {
        bson_iter_t i; bson_iter_init(&i, q);
        while (bson_iter_next(&i)) {
            bson_iter_t o;
            if (bson_iter_type(&i) == BSON_TYPE_DOCUMENT && bson_iter_recurse(&i, &o) && bson_iter_next(&o) && bson_iter_key(&o)[0] == '$') continue;
            set(bson_iter_key(&i), &i);
        }
    }
    while (bson_iter_next(&it)) {
        std::string op = bson_iter_key(&it);
        bson_iter_t i; bson_iter_recurse(&it, &i);
        while (bson_iter_next(&i)) {
            if (op == "$set" || (op == "$setOnInsert" && !old)) set(bson_iter_key(&i), &i);
            else if (op == "$unset") { std::string k = bson_iter_key(&i); for (size_t j = 0; j < fields.size(); j++) if (fields[j].first == k) { fields.erase(fields.begin() + j); break; } }
            else if (op != "$setOnInsert") sim::harness_error("simulated server: update operator %s", op.c_str());
        }
    }
    bool id = false;
    for (auto& f : fields) if (f.first == "_id") id = true;
    if (!id) { bson_oid_t o; fresh_oid(&o); BSON_APPEND_OID(&out.b, "_id", &o); }
    for (auto& f : fields) {
        bson_t b; view(f.second, &b); bson_iter_t v;
        bson_iter_init_find(&v, &b, "v");
        bson_append_iter(&out.b, f.first.c_str(), -1, &v);
    }
    return out.raw();
}
static std::vector<Raw> run_find(Coll* c, const bson_t* filter, const bson_t* sort, int64_t skip, int64_t limit) {
    std::vector<Raw> out;
    if (c) for (auto& d : c->docs) if (!filter || matches(d, filter)) out.push_back(d);
    if (sort) {
        std::stable_sort(out.begin(), out.end(), [&](const Raw& a, const Raw& b) {
            bson_iter_t k; bson_iter_init(&k, sort);
            while (bson_iter_next(&k)) {
                bson_t h1, h2; bson_iter_t v1, v2;
                bool x = find_path(a, bson_iter_key(&k), &v1, &h1), y = find_path(b, bson_iter_key(&k), &v2, &h2);
                int c = x && y ? cmpv(&v1, &v2) : (int) x - (int) y;
                if (c) return bson_iter_as_int64(&k) < 0 ? c > 0 : c < 0;
            }
            return false;
        });
    }
    if (skip > 0) out.erase(out.begin(), out.begin() + std::min<size_t>((size_t) skip, out.size()));
    if (limit < 0) limit = -limit;
    if (limit > 0 && out.size() > (size_t) limit) out.resize((size_t) limit);
    return out;
}
static Raw project(const Raw& d, const bson_t* p) {
    bson_iter_t it; bson_iter_init(&it, p);
    std::set<std::string> in, ex; bool noid = false;
    while (bson_iter_next(&it)) {
        std::string k = bson_iter_key(&it);
        bool on = bson_iter_as_bool(&it);
        if (k == "_id") { noid = !on; continue; }
        (on ? in : ex).insert(k);
    }
    B o; bson_t b; view(d, &b); bson_iter_t i; bson_iter_init(&i, &b);
    while (bson_iter_next(&i)) {
        std::string k = bson_iter_key(&i);
        if (k == "_id" ? noid : (!in.empty() ? !in.count(k) : ex.count(k) > 0)) continue;
        bson_append_iter(&o.b, k.c_str(), -1, &i);
    }
    return o.raw();
}
static Coll* find_coll(const std::string& db, const std::string& name) {
    auto d = server.dbs.find(db); if (d == server.dbs.end()) return nullptr;
    auto c = d->second.find(name); return c == d->second.end() ? nullptr : &c->second;
}
static bool is_write(const std::string& c) { return c == "insert" || c == "update" || c == "delete" || c == "createIndexes" || c == "create" || c == "drop"; }

// process one request; `partial` limits how many single-document effects a multi-document write has
static void process(Request& r, B* reply, int fault, uint32_t arg) {
    const std::string& c = r.cmd;
    if (c == "hello" || c == "isMaster" || c == "ismaster") { hello_reply(reply); return; }
    if (fault == ERR) {
        static const struct { int code; const char* name; } e[] = {{13, "Unauthorized"}, {50, "MaxTimeMSExpired"}, {11601, "Interrupted"}, {8000, "AtlasError"}, {91, "ShutdownInProgress"}, {10107, "NotWritablePrimary"}, {189, "PrimarySteppedDown"}, {6, "HostUnreachable"}, {14031, "OutOfDiskSpace"}};
        auto& x = e[arg % 9];
        err_reply(reply, x.code, x.name, "injected server error");
        return;
    }
    if (c == "ping" || c == "endSessions" || c == "killCursors" || c == "abortTransaction") {
        if (c == "killCursors") for (auto& d : {0}) { (void) d; bson_iter_t i, a; if (bson_iter_init_find(&i, &r.body, "cursors") && bson_iter_recurse(&i, &a)) while (bson_iter_next(&a)) g_cursors.erase(bson_iter_as_int64(&a)); }
        BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
        return;
    }
    if (c == "buildInfo") { BSON_APPEND_UTF8(&reply->b, "version", "6.0.0"); BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0); return; }
    std::string ns = r.db + "." + r.coll;
    if (c == "find") {
        bson_t filter, sort, proj;
        bool f = sub(&r.body, "filter", &filter), s = sub(&r.body, "sort", &sort), p = sub(&r.body, "projection", &proj);
        std::vector<Raw> docs = run_find(find_coll(r.db, r.coll), f ? &filter : nullptr, s ? &sort : nullptr, geti(&r.body, "skip", 0), geti(&r.body, "limit", 0));
        if (p) for (auto& d : docs) d = project(d, &proj);
        cursor_reply(reply, ns, docs, geti(&r.body, "batchSize", 101), geti(&r.body, "singleBatch", 0) != 0);
        return;
    }
    if (c == "getMore") {
        int64_t id = geti(&r.body, "getMore", 0), batch = geti(&r.body, "batchSize", 0);
        auto it = g_cursors.find(id);
        if (it == g_cursors.end()) { err_reply(reply, 43, "CursorNotFound", "cursor id not found"); return; }
        Cursor& cu = it->second;
        size_t left = cu.rest.size() - cu.pos, n = left;
        if (batch > 0) n = std::min<size_t>(n, (size_t) batch);
        if (n > 1 && sim::flip(1, 2)) n = 1 + sim::draw((uint32_t) n);
        bson_t cur, arr;
        bson_append_document_begin(&reply->b, "cursor", -1, &cur);
        bson_append_array_begin(&cur, "nextBatch", -1, &arr);
        for (size_t i = 0; i < n; i++) { bson_t d; view(cu.rest[cu.pos + i], &d); bson_append_document(&arr, std::to_string(i).c_str(), -1, &d); }
        bson_append_array_end(&cur, &arr);
        cu.pos += n;
        bool fin = cu.pos >= cu.rest.size();
        bson_append_int64(&cur, "id", -1, fin ? 0 : id);
        bson_append_utf8(&cur, "ns", -1, cu.ns.c_str(), -1);
        bson_append_document_end(&reply->b, &cur);
        if (fin) g_cursors.erase(it);
        BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
        return;
    }
    if (c == "aggregate") {
        bson_iter_t p, st;
        std::vector<Raw> docs; bool grouped = false;
        Coll* cl = find_coll(r.db, r.coll);
        if (cl) docs = cl->docs;
        if (bson_iter_init_find(&p, &r.body, "pipeline") && bson_iter_recurse(&p, &st)) {
            while (bson_iter_next(&st)) {
                bson_iter_t o; bson_iter_recurse(&st, &o); bson_iter_next(&o);
                std::string op = bson_iter_key(&o);
                if (op == "$match") { uint32_t l; const uint8_t* d; bson_iter_document(&o, &l, &d); bson_t m; bson_init_static(&m, d, l); std::vector<Raw> k; for (auto& x : docs) if (matches(x, &m)) k.push_back(x); docs.swap(k); }
                else if (op == "$skip") docs.erase(docs.begin(), docs.begin() + std::min<size_t>((size_t) bson_iter_as_int64(&o), docs.size()));
                else if (op == "$limit") { if (docs.size() > (size_t) bson_iter_as_int64(&o)) docs.resize((size_t) bson_iter_as_int64(&o)); }
                else if (op == "$group") {
                    grouped = true;
                    size_t n = docs.size(); docs.clear();
                    if (n) { B g; BSON_APPEND_INT32(&g.b, "_id", 1); BSON_APPEND_INT32(&g.b, "n", (int32_t) n); docs.push_back(g.raw()); }
                } else sim::harness_error("simulated server: aggregation stage %s", op.c_str());
            }
        }
        cursor_reply(reply, ns, docs, 101, grouped);
        return;
    }
    if (c == "count") {
        bson_t q; bool h = sub(&r.body, "query", &q);
        BSON_APPEND_INT32(&reply->b, "n", (int32_t) run_find(find_coll(r.db, r.coll), h ? &q : nullptr, nullptr, 0, 0).size());
        BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
        return;
    }
    if (c == "listCollections") {
        std::vector<Raw> docs;
        bson_t filter; bool f = sub(&r.body, "filter", &filter);
        auto d = server.dbs.find(r.db);
        if (d != server.dbs.end()) for (auto& e : d->second) {
            B o; BSON_APPEND_UTF8(&o.b, "name", e.first.c_str()); BSON_APPEND_UTF8(&o.b, "type", "collection");
            Raw x = o.raw();
            if (!f || matches(x, &filter)) docs.push_back(x);
        }
        if (docs.size() > 1 && sim::flip(1, 2)) for (size_t i = docs.size() - 1; i > 0; i--) std::swap(docs[i], docs[sim::draw((uint32_t) i + 1)]);   // catalogue order is arbitrary
        cursor_reply(reply, r.db + ".$cmd.listCollections", docs, 101, false);
        return;
    }
    if (c == "listDatabases") {
        bson_t arr;
        bson_append_array_begin(&reply->b, "databases", -1, &arr);
        int i = 0;
        for (auto& d : server.dbs) {
            if (d.second.empty()) continue;
            bson_t e; std::string k = std::to_string(i++);
            bson_append_document_begin(&arr, k.c_str(), -1, &e);
            BSON_APPEND_UTF8(&e, "name", d.first.c_str());
            bson_append_document_end(&arr, &e);
        }
        bson_append_array_end(&reply->b, &arr);
        BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
        return;
    }
    if (c == "listIndexes") {
        Coll* cl = find_coll(r.db, r.coll);
        if (!cl) { err_reply(reply, 26, "NamespaceNotFound", "ns does not exist"); return; }
        std::vector<Raw> docs = cl->indexes;
        cursor_reply(reply, ns, docs, 101, false);
        return;
    }
    if (c == "createIndexes") {
        Coll& cl = coll(r.db, r.coll);
        for (auto& ix : seq(r, "indexes")) {
            bool have = false;
            for (auto& e : cl.indexes) if (e == ix) have = true;
            if (!have) cl.indexes.push_back(ix);
        }
        BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
        return;
    }
    if (c == "insert" || c == "update" || c == "delete") {
        if (fault == WRITE_ERR) {
            BSON_APPEND_INT32(&reply->b, "n", 0);
            if (c == "update") BSON_APPEND_INT32(&reply->b, "nModified", 0);
            bson_t arr, e;
            bson_append_array_begin(&reply->b, "writeErrors", -1, &arr);
            bson_append_document_begin(&arr, "0", 1, &e);
            BSON_APPEND_INT32(&e, "index", 0); BSON_APPEND_INT32(&e, "code", 14031); BSON_APPEND_UTF8(&e, "errmsg", "injected write error");
            bson_append_document_end(&arr, &e);
            bson_append_array_end(&reply->b, &arr);
            BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
            return;
        }
        int64_t budget = fault == PARTIAL ? (int64_t) (arg % 3) : -1;
        Coll& cl = coll(r.db, r.coll);
        int n = 0, nmod = 0; std::string werr; std::vector<Raw> ups; std::vector<int> upidx;
        if (c == "insert") {
            for (auto& d : seq(r, "documents")) {
                if (budget == 0) break;
                Raw w = with_id(d);
                if (dup(cl, w, nullptr)) { werr = "E11000 duplicate key error"; break; }
                cl.docs.push_back(w); n++; if (budget > 0) budget--;
            }
        } else if (c == "update") {
            int idx = 0;
            for (auto& u : seq(r, "updates")) {
                bson_t b, q, up; view(u, &b); sub(&b, "q", &q); sub(&b, "u", &up);
                bool upsert = geti(&b, "upsert", 0) != 0, multi = geti(&b, "multi", 0) != 0, any = false;
                for (auto& d : cl.docs) {
                    if (!matches(d, &q)) continue;
                    any = true;
                    Raw nd = apply_update(&d, &q, &up);
                    if (dup(cl, nd, &d)) { werr = "E11000 duplicate key error"; break; }
                    n++; if (nd != d) nmod++;
                    d = nd;
                    if (!multi) break;
                }
                if (!any && upsert) {
                    Raw nd = apply_update(nullptr, &q, &up);
                    if (dup(cl, nd, nullptr)) { werr = "E11000 duplicate key error"; }
                    else { cl.docs.push_back(nd); n++; bson_t h; bson_iter_t i; find_path(nd, "_id", &i, &h); ups.push_back(one(&i)); upidx.push_back(idx); }
                }
                idx++;
                if (!werr.empty()) break;
            }
        } else {
            for (auto& u : seq(r, "deletes")) {
                bson_t b, q; view(u, &b); sub(&b, "q", &q);
                int64_t limit = geti(&b, "limit", 0);
                for (size_t i = 0; i < cl.docs.size();) {
                    if (budget == 0) break;
                    if (!matches(cl.docs[i], &q)) { i++; continue; }
                    cl.docs.erase(cl.docs.begin() + i); n++; if (budget > 0) budget--;
                    if (limit == 1) break;
                }
            }
        }
        if (fault == PARTIAL) { err_reply(reply, 11601, "Interrupted", "operation was interrupted"); return; }
        BSON_APPEND_INT32(&reply->b, "n", n);
        if (c == "update") {
            BSON_APPEND_INT32(&reply->b, "nModified", nmod);
            if (!ups.empty()) {
                bson_t arr; bson_append_array_begin(&reply->b, "upserted", -1, &arr);
                for (size_t i = 0; i < ups.size(); i++) {
                    bson_t e, v; bson_append_document_begin(&arr, std::to_string(i).c_str(), -1, &e);
                    BSON_APPEND_INT32(&e, "index", upidx[i]);
                    bson_iter_t it; view(ups[i], &v); bson_iter_init_find(&it, &v, "v"); bson_append_iter(&e, "_id", 3, &it);
                    bson_append_document_end(&arr, &e);
                }
                bson_append_array_end(&reply->b, &arr);
            }
        }
        if (!werr.empty()) {
            bson_t arr, e;
            bson_append_array_begin(&reply->b, "writeErrors", -1, &arr);
            bson_append_document_begin(&arr, "0", 1, &e);
            BSON_APPEND_INT32(&e, "index", 0); BSON_APPEND_INT32(&e, "code", 11000); BSON_APPEND_UTF8(&e, "errmsg", werr.c_str());
            bson_append_document_end(&arr, &e);
            bson_append_array_end(&reply->b, &arr);
        }
        if (fault == WC_ERR) {
            bson_t e; bson_append_document_begin(&reply->b, "writeConcernError", -1, &e);
            BSON_APPEND_INT32(&e, "code", 64); BSON_APPEND_UTF8(&e, "errmsg", "waiting for replication timed out");
            bson_append_document_end(&reply->b, &e);
        }
        BSON_APPEND_DOUBLE(&reply->b, "ok", 1.0);
        return;
    }
    sim::harness_error("simulated server: unknown command %s", c.c_str());
}

// ---- connections ------------------------------------------------------------
struct Stream {
    mongoc_stream_t vt;              // must be first
    std::vector<uint8_t> in, out;    // to / from the server
    size_t outpos = 0;
    bool broken = false;             // reset by the network
    bool hang = false;               // the next read times out
    bool tout = false;
    uint64_t epoch = 0, gen = 0;
};
static void put32(std::vector<uint8_t>* v, int32_t x) { for (int i = 0; i < 4; i++) v->push_back((uint8_t) ((uint32_t) x >> (8 * i))); }
static int32_t get32(const uint8_t* p) { return (int32_t) ((uint32_t) p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24); }

static bool parse(const uint8_t* m, int32_t len, Request* r, bool* more) {
    int32_t op = get32(m + 12);
    r->id = get32(m + 4);
    r->bytes.assign(m, m + len);
    const uint8_t* p = r->bytes.data();
    *more = false;
    if (op == 2004) {                       // OP_QUERY (handshake)
        r->legacy = true;
        const char* ns = (const char*) p + 20;
        size_t o = 20 + strlen(ns) + 1 + 8;
        int32_t dl = get32(p + o);
        if (!bson_init_static(&r->body, p + o, (size_t) dl)) return false;
        r->db = "admin";
    } else if (op == 2013) {                // OP_MSG
        uint32_t flags = (uint32_t) get32(p + 16);
        *more = (flags & 2) != 0;
        size_t o = 20, end = (size_t) len - ((flags & 1) ? 4 : 0);
        bool body = false;
        while (o < end) {
            uint8_t kind = p[o++];
            if (kind == 0) {
                int32_t dl = get32(p + o);
                if (!bson_init_static(&r->body, p + o, (size_t) dl)) return false;
                o += (size_t) dl; body = true;
            } else if (kind == 1) {
                int32_t sl = get32(p + o);
                size_t se = o + (size_t) sl, q = o + 4;
                std::string name = (const char*) p + q;
                q += name.size() + 1;
                auto& v = r->seqs[name];
                while (q < se) { int32_t dl = get32(p + q); v.emplace_back(p + q, p + q + dl); q += (size_t) dl; }
                o = se;
            } else return false;
        }
        if (!body) return false;
    } else return false;
    bson_iter_t it;
    if (!bson_iter_init(&it, &r->body) || !bson_iter_next(&it)) return false;
    r->cmd = bson_iter_key(&it);
    if (bson_iter_type(&it) == BSON_TYPE_UTF8) r->coll = bson_iter_utf8(&it, nullptr);
    bson_iter_t d;
    if (bson_iter_init_find(&d, &r->body, "$db") && bson_iter_type(&d) == BSON_TYPE_UTF8) r->db = bson_iter_utf8(&d, nullptr);
    if (r->cmd == "getMore" && bson_iter_init_find(&d, &r->body, "collection")) r->coll = bson_iter_utf8(&d, nullptr);
    return true;
}
static void frame(Stream* s, const Request& r, const B& reply, size_t cut) {
    std::vector<uint8_t> m;
    const uint8_t* d = bson_get_data(&reply.b);
    int32_t dl = (int32_t) reply.b.len;
    if (r.legacy) {
        put32(&m, 16 + 20 + dl); put32(&m, 1); put32(&m, r.id); put32(&m, 1);
        put32(&m, 8); put32(&m, 0); put32(&m, 0); put32(&m, 0); put32(&m, 1);
    } else {
        put32(&m, 16 + 5 + dl); put32(&m, 1); put32(&m, r.id); put32(&m, 2013);
        put32(&m, 0); m.push_back(0);
    }
    m.insert(m.end(), d, d + dl);
    if (cut < m.size()) m.resize(cut);
    s->out.insert(s->out.end(), m.begin(), m.end());
}
static void handle(Stream* s, const uint8_t* m, int32_t len) {
    Request r; bool more;
    if (!parse(m, len, &r, &more)) sim::harness_error("simulated server: malformed request");
    bool hs = r.cmd == "hello" || r.cmd == "isMaster" || r.cmd == "ismaster";
    sim::step();
    if (!hs) {
        if (g_dead || s->gen != g_client_gen) { s->broken = true; return; }
        if (g_kill_in >= 0 && g_kill_in-- == 0) { g_dead = true; s->broken = true; sim::fault_fired("client-death"); g_faults++; sim::log("client dies before %s %s", r.cmd.c_str(), r.coll.c_str()); return; }
        if (on_message) { auto f = on_message; f(); if (s->broken) return; }
    }
    uint32_t arg = 0;
    int k = hs ? NONE : match(r.cmd, r.coll, is_write(r.cmd), &arg);
    if (k != NONE) fired(k, r.cmd + " " + r.coll);
    if (k == RESTART) { g_epoch++; g_cursors.clear(); s->broken = true; return; }
    if (k == DROP_REQ) { s->broken = true; return; }
    if (k == HANG_REQ) { s->hang = true; return; }
    if (k == DELAY) { uint64_t ms = (uint64_t) (1 + arg) * (arg % 7 == 0 ? 60 : 1); g_delay_ms += ms; simclock::tick(ms * 1000000ull); }
    g_msgs++;
    B reply;
    process(r, &reply, k, arg);
    simclock::tick(100000 + sim::skewed(50) * 100000ull);
    if (!hs) sim::log("srv %s %s.%s%s reply=%u bytes", r.cmd.c_str(), r.db.c_str(), r.coll.c_str(), more ? " (no reply wanted)" : "", (unsigned) reply.b.len);
    if (more) return;
    if (k == DROP_REPLY) { s->broken = true; return; }
    if (k == HANG_REPLY) { s->hang = true; return; }
    if (k == PART_REPLY) { frame(s, r, reply, arg % (20 + reply.b.len)); s->broken = true; return; }
    frame(s, r, reply, SIZE_MAX);
}

// ---- stream vtable ----------------------------------------------------------
static Stream* S(mongoc_stream_t* s) { return (Stream*) s; }
static void st_destroy(mongoc_stream_t* s) { g_streams--; delete S(s); }
static int st_close(mongoc_stream_t* s) { S(s)->broken = true; return 0; }
static int st_flush(mongoc_stream_t*) { return 0; }
static bool stale(Stream* s) { return s->broken || s->epoch != g_epoch || s->gen != g_client_gen; }
static ssize_t st_writev(mongoc_stream_t* ms, mongoc_iovec_t* iov, size_t n, int32_t) {
    Stream* s = S(ms);
    s->tout = false;
    if (stale(s)) { errno = EPIPE; return -1; }
    ssize_t total = 0;
    for (size_t i = 0; i < n; i++) {
        const uint8_t* b = (const uint8_t*) iov[i].iov_base;
        s->in.insert(s->in.end(), b, b + iov[i].iov_len); total += (ssize_t) iov[i].iov_len;
    }
    while (s->in.size() >= 16) {
        int32_t len = get32(s->in.data());
        if ((size_t) len > s->in.size()) break;
        std::vector<uint8_t> m(s->in.begin(), s->in.begin() + len);
        s->in.erase(s->in.begin(), s->in.begin() + len);
        if (yield_points) simthr::yield();
        if (stale(s)) { s->broken = true; break; }
        handle(s, m.data(), len);
        if (yield_points) simthr::yield();
    }
    return total;
}
static ssize_t st_readv(mongoc_stream_t* ms, mongoc_iovec_t* iov, size_t n, size_t min_bytes, int32_t timeout) {
    Stream* s = S(ms);
    s->tout = false;
    size_t got = 0;
    sim::step();
    for (size_t i = 0; i < n; i++) {
        uint8_t* b = (uint8_t*) iov[i].iov_base;
        size_t room = iov[i].iov_len;
        while (room > 0 && s->outpos < s->out.size()) {
            size_t k = std::min(room, s->out.size() - s->outpos);
            if (k > 1 && got >= min_bytes && sim::flip(1, 4)) { size_t q = 1 + sim::draw((uint32_t) std::min<size_t>(k, 64)); memcpy(b, s->out.data() + s->outpos, q); s->outpos += q; return (ssize_t) (got + q); }
            memcpy(b, s->out.data() + s->outpos, k);
            b += k; room -= k; got += k; s->outpos += k;
        }
    }
    if (s->outpos == s->out.size()) { s->out.clear(); s->outpos = 0; }
    if (got >= min_bytes && got > 0) return (ssize_t) got;
    if (stale(s)) { errno = sim::draw(2) ? 0 : ECONNRESET; return -1; }
    // nothing arrives: the client waits for its whole timeout
    if (timeout < 0) sim::violate("unbounded-wait", "the client waits for the server without a timeout");
    simclock::tick((uint64_t) timeout * 1000000ull);
    s->tout = true;
    errno = ETIMEDOUT;
    return -1;
}
static int st_setsockopt(mongoc_stream_t*, int, int, void*, mongoc_socklen_t) { return 0; }
static bool st_check_closed(mongoc_stream_t* ms) { return stale(S(ms)); }
static ssize_t st_poll(mongoc_stream_poll_t* p, size_t n, int32_t timeout) {
    ssize_t ready = 0;
    sim::step();
    for (size_t i = 0; i < n; i++) {
        Stream* s = S(p[i].stream);
        p[i].revents = 0;
        if ((p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
        if ((p[i].events & POLLIN) && (s->outpos < s->out.size())) p[i].revents |= POLLIN;
        if (stale(s)) p[i].revents |= POLLHUP;
        if (p[i].revents) ready++;
    }
    if (!ready) simclock::tick((uint64_t) (timeout < 0 ? 1000 : timeout) * 1000000ull);
    return ready;
}
static void st_failed(mongoc_stream_t* s) { st_destroy(s); }
static bool st_timed_out(mongoc_stream_t* s) { return S(s)->tout; }
static bool st_should_retry(mongoc_stream_t*) { return false; }

static mongoc_stream_t* initiator(const mongoc_uri_t*, const mongoc_host_list_t* host, void*, bson_error_t* error) {
    sim::step();
    simclock::tick(1000000);
    uint32_t arg = 0;
    int k = match("connect", "", false, &arg);
    if (g_dead) k = REFUSE;
    if (k != NONE) {
        if (!g_dead) fired(k, "connect");
        if (k == CONN_HANG) simclock::tick(10000ull * 1000000ull);
        bson_set_error(error, MONGOC_ERROR_STREAM, MONGOC_ERROR_STREAM_CONNECT, "connection %s: %s", k == CONN_HANG ? "timed out" : "refused", host->host_and_port);
        return nullptr;
    }
    Stream* s = new Stream();
    memset(&s->vt, 0, sizeof s->vt);
    s->vt.type = 100;
    s->vt.destroy = st_destroy; s->vt.close = st_close; s->vt.flush = st_flush; s->vt.writev = st_writev; s->vt.readv = st_readv;
    s->vt.setsockopt = st_setsockopt; s->vt.check_closed = st_check_closed; s->vt.poll = st_poll;
    s->vt.failed = st_failed; s->vt.timed_out = st_timed_out; s->vt.should_retry = st_should_retry;
    s->epoch = g_epoch; s->gen = g_client_gen;
    g_streams++;
    return mongoc_stream_buffered_new(&s->vt, 1024);
}

// ---- memory accounting of libbson / libmongoc -------------------------------
struct Trace { void* pc[14]; int n; };
static std::map<void*, Trace>* g_trace = nullptr;   // only when debugging: SIM_BSON_TRACE=1
static void* born(void* p) { g_blocks++; if (g_trace) { auto* t = g_trace; g_trace = nullptr; Trace x; x.n = backtrace(x.pc, 14); (*t)[p] = x; g_trace = t; } return p; }
static void died(void* p) { g_blocks--; if (g_trace) g_trace->erase(p); }
static void* v_malloc(size_t n) { return born(malloc(n)); }
static void* v_calloc(size_t a, size_t b) { return born(calloc(a, b)); }
static void* v_realloc(void* p, size_t n) { if (p && g_trace) { void* q = realloc(p, n); if (q != p) { (*g_trace)[q] = (*g_trace)[p]; g_trace->erase(p); } return q; } if (!p) return born(realloc(p, n)); if (!n) died(p); return realloc(p, n); }
static void v_free(void* p) { if (p) died(p); free(p); }
static void* v_aligned(size_t a, size_t n) { return born(aligned_alloc(a, (n + a - 1) / a * a)); }
void trace_blocks() {
    if (!getenv("SIM_BSON_TRACE")) return;
    if (!g_trace) { g_trace = new std::map<void*, Trace>; return; }
    for (auto& kv : *g_trace) { auto c = backtrace_symbols(kv.second.pc, kv.second.n); sim::log("--- block"); for (int i = 0; i < kv.second.n; i++) sim::log("%s", c[i]); }
}

void init() {
    static bool done = false;
    if (done) return;
    done = true;
    if (getenv("SIM_BSON_TRACE")) { void* pc[2]; backtrace(pc, 2); }
    static bson_mem_vtable_t vt;
    vt.malloc = v_malloc; vt.calloc = v_calloc; vt.realloc = v_realloc; vt.free = v_free; vt.aligned_alloc = v_aligned;
    bson_mem_set_vtable(&vt);
    mongoc_init();
    mongoc_log_set_handler(nullptr, nullptr);
}

// ---- state helpers ----------------------------------------------------------
std::vector<File> files(const std::string& db, const std::string& gfs) {
    std::vector<File> out;
    Coll* fc = find_coll(db, gfs + ".files"); Coll* cc = find_coll(db, gfs + ".chunks");
    if (!fc) return out;
    std::multimap<Raw, const Raw*> by_id;
    if (cc) for (auto& c : cc->docs) { bson_t h; bson_iter_t v; if (find_path(c, "files_id", &v, &h)) by_id.emplace(one(&v), &c); }
    for (auto& d : fc->docs) {
        File f; f.doc = d;
        bson_t b; view(d, &b); bson_iter_t i;
        if (bson_iter_init_find(&i, &b, "filename") && bson_iter_type(&i) == BSON_TYPE_UTF8) f.name = bson_iter_utf8(&i, nullptr);
        if (bson_iter_init_find(&i, &b, "length")) f.length = bson_iter_as_int64(&i);
        if (bson_iter_init_find(&i, &b, "chunkSize")) f.chunk_size = (int32_t) bson_iter_as_int64(&i);
        bson_t m;
        if (sub(&b, "metadata", &m)) { f.has_meta = true; f.meta.assign(bson_get_data(&m), bson_get_data(&m) + m.len); }
        bson_iter_t id;
        if (bson_iter_init_find(&id, &b, "_id")) f.id = one(&id);
        std::map<int64_t, std::string> parts;
        auto own = by_id.equal_range(f.id);
        for (auto e = own.first; e != own.second; ++e) {
            const Raw& c = *e->second;
            int64_t n = -1; bson_t h2; bson_iter_t nn;
            if (find_path(c, "n", &nn, &h2)) n = bson_iter_as_int64(&nn);
            bson_t h3; bson_iter_t dd;
            std::string data;
            if (find_path(c, "data", &dd, &h3) && bson_iter_type(&dd) == BSON_TYPE_BINARY) { bson_subtype_t st; uint32_t l; const uint8_t* p; bson_iter_binary(&dd, &st, &l, &p); data.assign((const char*) p, l); }
            parts[n] = data; f.chunks++;
        }
        f.complete = f.length >= 0;
        int64_t k = 0;
        for (auto& p : parts) {
            if (p.first != k++) f.complete = false;
            f.data += p.second;
            if (k < (int64_t) parts.size() && (int64_t) p.second.size() != f.chunk_size) f.complete = false;
        }
        if ((int64_t) f.data.size() != f.length) f.complete = false;
        out.push_back(f);
    }
    return out;
}
int orphan_chunks(const std::string& db, const std::string& gfs) {
    auto fs = files(db, gfs);
    Coll* cc = find_coll(db, gfs + ".chunks");
    int n = 0;
    if (cc) for (auto& c : cc->docs) {
        bson_t h; bson_iter_t v; bool owned = false;
        if (find_path(c, "files_id", &v, &h)) for (auto& f : fs) { bson_t h2; bson_iter_t i; view(f.id, &h2); if (bson_iter_init_find(&i, &h2, "v") && same(&i, &v)) owned = true; }
        if (!owned) n++;
    }
    return n;
}
std::string put_file(const std::string& db, const std::string& gfs, const std::string& name, const std::string& data, const bson_t* meta, int32_t chunk, const bson_value_t* id) {
    Coll& fc = coll(db, gfs + ".files"); Coll& cc = coll(db, gfs + ".chunks");
    bson_oid_t oid; fresh_oid(&oid);
    B f;
    if (id) BSON_APPEND_VALUE(&f.b, "_id", id); else BSON_APPEND_OID(&f.b, "_id", &oid);
    BSON_APPEND_INT64(&f.b, "length", (int64_t) data.size());
    BSON_APPEND_INT32(&f.b, "chunkSize", chunk);
    BSON_APPEND_DATE_TIME(&f.b, "uploadDate", simclock::wall_ns / 1000000);
    BSON_APPEND_UTF8(&f.b, "filename", name.c_str());
    if (meta) BSON_APPEND_DOCUMENT(&f.b, "metadata", meta);
    int n = 0;
    for (size_t o = 0; o < data.size(); o += (size_t) chunk) {
        B c; bson_oid_t co; fresh_oid(&co);
        size_t l = std::min<size_t>((size_t) chunk, data.size() - o);
        BSON_APPEND_OID(&c.b, "_id", &co);
        if (id) BSON_APPEND_VALUE(&c.b, "files_id", id); else BSON_APPEND_OID(&c.b, "files_id", &oid);
        BSON_APPEND_INT32(&c.b, "n", n++);
        BSON_APPEND_BINARY(&c.b, "data", BSON_SUBTYPE_BINARY, (const uint8_t*) data.data() + o, (uint32_t) l);
        cc.docs.push_back(c.raw());
    }
    fc.docs.push_back(f.raw());
    return "";
}
}  // namespace simdb

// ---- seams ------------------------------------------------------------------
extern "C" mongoc_client_t* mongoc_client_new_from_uri(const mongoc_uri_t* uri) {
    typedef mongoc_client_t* (*fn)(const mongoc_uri_t*);
    static fn real = (fn) dlsym(RTLD_NEXT, "mongoc_client_new_from_uri");
    mongoc_client_t* c = real(uri);
    if (c) mongoc_client_set_stream_initiator(c, simdb::initiator, nullptr);
    return c;
}
extern "C" void mongoc_cleanup(void) {}          // once per process; runs share the process image
