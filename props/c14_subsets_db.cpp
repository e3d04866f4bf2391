#include "props/mongo_raster.h"
#include "props/subset_world.h"
const char* const kPropertyId = "C14";
const char* const kRule = "One run = a raster split into subsets (by zone values, drawn groups or a mask with subsets), then a history of assigning data, marking subsets unusable, and storing them in GridFS one by one or combined, full-sized or valid cells only, with reclassification, defaults and value types, with faults at any message or the death of the client. "
    "Success -> every file of a usable subset is stored once with the reference's extent, layers, type and cells; recombining what was stored gives back every valid cell; failure only with a fault or an impossible request; a fault-free repetition succeeds; other files and the raster are unchanged; no leak.";
const char* const kRealComponents = MONGO_REAL;
const char* const kStubComponents = MONGO_STUB;
void prop_init() { mongo_init(); }

static bool decode(const string& type, const string& d, vector<double>& o) {
    o.clear();
#define DEC(N, C) if (type == N) { if (d.size() % sizeof(C)) return false; for (size_t i = 0; i < d.size(); i += sizeof(C)) { C v; memcpy(&v, &d[i], sizeof v); o.push_back((double) v); } return true; }
    DEC("UINT8", uint8_t) DEC("INT8", int8_t) DEC("UINT16", uint16_t) DEC("INT16", int16_t) DEC("UINT32", uint32_t) DEC("INT32", int32_t) DEC("UINT64", uint64_t) DEC("INT64", int64_t) DEC("FLOAT", float) DEC("DOUBLE", double)
#undef DEC
    return false;
}
template <class T> void run() {
    World<T> w; if (!w.setup()) return;
    auto*& rs = w.rs;
    simdb::server.dbs.clear(); simdb::disarm();
    const DbType* type = DbRaster<T>::own(); bool typed = sim::flip(1, 4); if (typed) type = &kDbTypes[sim::draw(10)];
    UserOpts user = UserOpts::gen();
    bool any_fault = false;
    { bson_t m; bson_init(&m); BSON_APPEND_UTF8(&m, "INCLUDE_NODATA", "TRUE"); static const char* n[] = {"0_zz", "1_z2", "z", "10_z", "_z"}; for (auto s : n) simdb::put_file(kDb, kGfs, s, "neighbour", &m); bson_destroy(&m); }
    auto ids = [&]() { std::set<string> o; for (auto& kv : w.subs) o.insert(std::to_string(kv.first) + "_z"); o.insert("0_z"); return o; };

    // expected cells of one stored file, in the order they are stored
    struct Want { string name; Grid g; int ncells = 0; vector<int> order; vector<char> loose; int conv = 1; };
    auto wants = [&](const typename World<T>::Out& e, bool combined, bool full) {
        vector<Want> o;
        auto finish = [&](Want& x) { x.ncells = full ? x.g.n() : (int) x.order.size(); x.conv = db_convert(x.g, *type); o.push_back(x); };
        if (combined) {
            Want x; x.name = "0_z"; x.g = e.all; x.loose = e.loose;
            int* idx = rs->GetRasterPositionIndexPointer();
            for (int i = 0; i < (full ? x.g.n() : rs->GetCellNumber()); i++) x.order.push_back(full || !idx ? i : idx[i]);
            finish(x);
        } else for (auto& kv : e.one) {
            Want x; x.name = std::to_string(kv.first) + "_z"; x.g = kv.second; Sub& s = w.subs[kv.first];
            x.loose.assign(x.g.n(), 0);
            for (int f : s.full) { int k = (f / w.g.cols - s.r0) * x.g.cols + f % w.g.cols - s.c0; x.loose[k] = e.loose[f]; if (!full) x.order.push_back(k); }
            if (full) for (int i = 0; i < x.g.n(); i++) x.order.push_back(i);
            finish(x);
        }
        return o;
    };
    auto matching = [&](const string& name, bool full) { Files o; for (auto& f : named(name)) { double d; if (!strcasecmp(meta_num(f.meta, "INCLUDE_NODATA", d).c_str(), full ? "TRUE" : "FALSE")) o.push_back(f); } return o; };
    auto check_file = [&](const Want& x, bool full, const char* when) {
        auto fs = matching(x.name, full);
        if (fs.size() != 1) sim::violate("lost", "%s: '%s' is stored %zu times after success", when, x.name.c_str(), fs.size());
        auto& f = fs[0];
        Stored s; s.g = x.g; s.full = full; s.type = type->name; s.ncells = x.ncells; s.user = user.m;
        string d = diff_meta(f, s); if (!d.empty()) sim::violate("wrong-metadata", "%s: '%s': %s", when, x.name.c_str(), d.c_str());
        vector<double> v; bool dec = decode(type->name, f.data, v);
        if (!f.complete || !dec || v.size() != (size_t) x.ncells * x.g.lyrs) sim::violate("lost-data", "%s: '%s' holds %zu bytes, expected %d cells of %d layers", when, x.name.c_str(), f.data.size(), x.ncells, x.g.lyrs);
        for (int k = 0; k < x.ncells; k++) { int c = x.order[k]; if (x.loose[c]) continue; for (int l = 0; l < x.g.lyrs; l++) { double a = v[(size_t) k * x.g.lyrs + l], b = x.g.v[l][c]; if (!same_num(a, b)) sim::violate("wrong-cell", "%s: '%s' (%s, %s) cell %d layer %d is %.17g instead of %.17g", when, x.name.c_str(), type->name, full ? "full" : "valid only", c, l + 1, a, b); } }
    };
    std::map<vint, vector<double>> none;
    auto others = [&]() { auto n = ids(); Files o; for (auto& f : simdb::files(kDb, kGfs)) if (!n.count(f.name) && !f.name.empty()) o.push_back(f); return o; };
    auto write = [&](bool origin, bool combined, bool full, const std::map<vint, vector<double>>& recls, double df, bool faults) {
        auto e = w.expect(origin, combined, recls, df);
        vector<Want> ws; if (e.ok) ws = wants(e, combined, full);
        bool unfit = false, open = false; for (auto& x : ws) { unfit |= x.conv == 0; open |= x.conv < 0; for (char c : x.loose) open |= c && typed; }
        Files nb = others(); bool ok = false, dead = false; uint64_t f0 = simdb::fault_count();
        STRING_MAP o = user.m; if (typed || !w.own || sim::flip(1, 2)) o["DATATYPE_OUT"] = type->name;
        LeakCheck lc; bool up;
        auto once = [&](Client& cl) { guarded(combined ? "store-combined" : "store-separate", [&]() {
            if (combined && !origin && recls.empty() && df == NODATA_VALUE && sim::flip(1, 2)) ok = rs->OutputToMongoDB(cl.g, "z", o, full, false);
            else ok = rs->OutputSubsetToMongoDB(cl.g, "z", o, full, origin, combined, recls, df); }); };
        {
            Client cl; vector<simdb::Rule> rules; bool kill = false;
            if (faults) { rules = gen_net(kWriteFaults, combined ? 14 : 8 + 10 * (int) w.subs.size(), 0); kill = sim::flip(1, 5); if (kill) { rules.clear(); simdb::kill_client_after(4 + (int) sim::draw(8 + 10 * (uint32_t) w.subs.size())); } }
            bool late = sim::flip(3, 4);
            if (!late) simdb::arm(rules);
            up = cl.open();
            if (late) simdb::arm(rules);
            if (up) once(cl);
            dead = kill && simdb::client_dead(); if (kill) simdb::revive();
            simdb::disarm();
        }
        bool fired = simdb::fault_count() > f0 || dead || !up;
        any_fault |= fired;
        sim::log("store %s %s %s recls %zu default %g as %s -> %d (expected %d %s%s, fault %d)", origin ? "original" : "assigned", combined ? "combined" : "separate", full ? "full" : "valid-only", recls.size(), df, type->name, ok, e.ok && !unfit, e.why.c_str(), unfit ? "value does not fit" : "", fired);
        if (ok && !dead && (!e.ok || (unfit && !open))) sim::violate("unreported-failure", "storing %s %s subsets reports success, but %s", combined ? "combined" : "separate", origin ? "original" : "assigned", e.ok ? "values do not fit the type" : e.why.c_str());
        if (!ok && e.ok && !unfit && !open && !fired) sim::violate("refused-healthy", "storing %s %s subsets failed on a healthy server", combined ? "combined" : "separate", origin ? "original" : "assigned");
        if (ok && !dead && !open) for (auto& x : ws) check_file(x, full, "after success");
        Files na = others();
        if (na.size() != nb.size()) sim::violate("bystander", "%zu other files instead of %zu", na.size(), nb.size());
        for (size_t i = 0; i < na.size(); i++) if (na[i].doc != nb[i].doc || na[i].data != nb[i].data) sim::violate("bystander", "'%s' was changed", na[i].name.c_str());
        calm();
        lc.check("after storing", true);
        if (fired && e.ok && !unfit && !open) {          // the same again without faults
            LeakCheck lc2; { Client cl; if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy"); once(cl); }
            if (!ok) sim::violate("no-recovery", "storing subsets without faults fails after an earlier attempt met faults");
            for (auto& x : ws) check_file(x, full, "after a fault-free repetition");
            lc2.check("after storing again", true);
        }
        for (auto& kv : rs->GetSubset()) if ((kv.second->data_ || kv.second->data2d_) != w.subs[kv.first].has) sim::violate("subset-changed", "storing subsets %s data to subset %d", w.subs[kv.first].has ? "drops" : "adds", kv.first);
        return ok && !open;
    };
    int steps = sim::range(1, 4);
    for (int t = 0; t < steps; t++) {
        bool full = sim::flip(1, 2);
        switch (sim::weighted({4, 3, 4, 2, 2, 1})) {
            case 0: write(true, sim::flip(1, 3), full, none, NODATA_VALUE, sim::flip(1, 2)); break;
            case 1: w.assign(sim::flip(3, 4) ? sim::range(1, 3) : 0); write(false, sim::flip(1, 2), full, none, sim::flip(1, 5) ? 33 : NODATA_VALUE, sim::flip(1, 2)); break;
            case 2: {   // decompose, store, read each subset back, recombine
                if (!write(true, false, full, none, NODATA_VALUE, sim::flip(1, 4))) break;
                auto e = w.expect(true, false, none, NODATA_VALUE); auto ws = wants(e, false, full);
                STRING_MAP o = user.m; o["INCLUDE_NODATA"] = full ? "TRUE" : "FALSE";
                bool faults = sim::flip(1, 3); uint64_t f0 = simdb::fault_count();
                Client cl; if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy");
                if (faults) simdb::arm(gen_net(kReadFaults, 8 * (int) w.subs.size(), 0));
                for (auto& x : ws) {
                    int id = atoi(x.name.c_str()); auto* p = rs->GetSubset().at(id); Sub& s = w.subs[id]; bool ok = false;
                    // the file of a subset with another extent is not this subset's
                    for (auto& y : ws) if (!faults && y.name != x.name && (y.g.rows != x.g.rows || y.g.cols != x.g.cols) && sim::flip(1, 3)) { guarded("read-other", [&]() { ok = p->ReadFromMongoDB(cl.g, y.name, o); }); if (ok) sim::violate("foreign-subset", "subset %d accepts the stored data of %s", id, y.name.c_str()); break; }
                    for (int tries = 0; tries < 2 && !ok; tries++) {
                        guarded("read-subset", [&]() { ok = p->ReadFromMongoDB(cl.g, x.name, o); });
                        if (!ok && simdb::fault_count() == f0) sim::violate("unreadable-subset", "stored subset '%s' cannot be read on a healthy server", x.name.c_str());
                        if (!ok) {      // what it had before
                            bool has = p->data_ || p->data2d_;
                            if (has != s.has) sim::violate("partial-result", "a failed read of '%s' %s data", x.name.c_str(), has ? "left" : "dropped");
                            if (s.has) for (size_t k = 0; k < s.full.size(); k++) for (int l = 0; l < s.lyrs; l++) { double a = p->data2d_ ? p->data2d_[k][l] : p->data_[k]; if (!same_num(a, cast<T>(s.data[l][k])) && !same_num(a, s.data[l][k])) sim::violate("partial-result", "a failed read of '%s' changed cell %zu", x.name.c_str(), k); }
                            simdb::disarm(); calm(); { Client again; std::swap(again, cl); } cl.g = nullptr; cl.c = nullptr; if (!cl.open()) sim::violate("no-recovery", "no GridFS although the server is healthy"); any_fault = true;
                        }
                    }
                    if (!ok) sim::violate("no-recovery", "stored subset '%s' cannot be read after the faults", x.name.c_str());
                    s.lyrs = w.g.lyrs; s.has = true; s.usable = true; s.data.assign(s.lyrs, vector<double>(s.full.size()));
                    if (p->n_lyrs != s.lyrs || (s.lyrs > 1 ? !p->data2d_ : !p->data_ && !p->data2d_)) sim::violate("wrong-layers", "subset %d has %d layers after reading '%s'", id, p->n_lyrs, x.name.c_str());
                    for (size_t k = 0; k < s.full.size(); k++) for (int l = 0; l < s.lyrs; l++) {
                        int f = s.full[k], c = (f / w.g.cols - s.r0) * x.g.cols + f % w.g.cols - s.c0;
                        double a = p->data2d_ ? p->data2d_[k][l] : p->data_[k]; s.data[l][k] = a;
                        if (!same_num(a, x.g.v[l][c])) sim::violate("cell-changed", "(%zu of %zu cells, %dx%d, data %d %d) cell %d layer %d of subset %d reads back as %.17g, stored as %.17g", k, s.full.size(), x.g.rows, x.g.cols, p->data_ != nullptr, p->data2d_ != nullptr, f, l + 1, id, a, x.g.v[l][c]);
                    }
                }
                simdb::disarm(); calm();
                cl.close();
                if (!typed) write(false, true, full, none, NODATA_VALUE, sim::flip(1, 3));
                break;
            }
            case 3: {
                std::map<vint, vector<double>> rc; int k = sim::flip(2, 3) ? 1 : sim::range(1, 3); bool odd = sim::flip(1, 10);
                for (int z = w.zmin - 1; z < w.zmin + w.nz + 2; z++) if (sim::flip(2, 3)) { vector<double> v; for (int l = 0; l < k + (odd && z == w.zmin); l++) v.push_back(gen_value<T>()); rc[z] = v; }
                if (rc.empty()) rc[w.zmin] = vector<double>(k, 1);
                write(sim::flip(1, 2), sim::flip(1, 2), full, rc, sim::flip(1, 3) ? 33 : NODATA_VALUE, sim::flip(1, 3)); break;
            }
            case 4: if (w.subs.size() > 1) { auto it = w.subs.begin(); std::advance(it, sim::draw((uint32_t) w.subs.size())); it->second.usable = false; rs->GetSubset().at(it->first)->usable = false; sim::log("subset %d not usable", it->first); } write(true, sim::flip(1, 2), full, none, NODATA_VALUE, false); break;
            default: {
                bool ok = false; guarded("store without a database", [&]() { ok = rs->OutputSubsetToMongoDB(nullptr, "z", user.m, full, true, false); });
                if (ok) sim::violate("success-without-database", "storing subsets without a GridFS reports success");
                auto* p = rs->GetSubset().begin()->second; guarded("read without a database", [&]() { ok = p->ReadFromMongoDB(nullptr, "0_z", user.m); });
                if (ok) sim::violate("success-without-database", "reading a subset without a GridFS reports success");
            }
        }
        string d = diff_grid(view(rs), w.g, false);
        if (!d.empty()) sim::violate("raster-changed", "the raster itself changed: %s", d.c_str());
    }
    if (any_fault) sim::mark_nontrivial();
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    switch (sim::draw(4)) { case 0: run<float>(); break; case 1: run<int>(); break; case 2: run<double>(); break; default: run<short>(); }
}
