#include "props/common.h"
#include "utils_filesystem.h"
#include <algorithm>
#include <map>
#include <set>
using namespace ccgl::utils_filesystem;
const char* const kPropertyId = "C18";
const char* const kRule = "One run = a generated directory (files with and without extension, hidden files, directories with file-like names, pipes, links to files, to directories and to nothing), an extension list, shuffled listing order, unknown entry types, disk faults, another process that adds, removes or replaces entries meanwhile, and several searches. Non-trivial: a fault fired, or entry types are unknown, or names that must not match are present.";
const char* const kRealComponents = "CCGL utils_filesystem/utils_string";
const char* const kStubComponents = "kernel file system (simulated disk below libc)";
void prop_init() {}

void prop_run() {
    simfs::reset();
    simfs::sim_relative = true; simfs::sim_cwd = "/sim/cwd";
    simfs::mkdirs("/sim/cwd"); simfs::mkdirs("/sim/w/s");
    vector<string> exts = {"tif", "asc", "txt", "ti", "t", "tiff", "dat", "c1"};
    std::map<string, string> files;   // visible non-directory name -> extension ("" none)
    std::set<string> maybe;           // may be returned or not: nothing (any more) to be found behind the name
    int n = sim::range(0, 10);
    bool tricky = false;
    for (int i = 0; i < n; i++) {
        string base = (sim::flip(1, 5) ? "a b" : sim::flip(1, 5) ? "x.y" : "f") + std::to_string(i);
        string ext = sim::flip(1, 5) ? "" : sim::pick(exts);
        string name = base + (ext.empty() ? "" : "." + ext);
        if (ext.empty() && base[0] == 'x') ext = "y" + std::to_string(i);
        switch (sim::weighted({8, 1, 1, 1, 1, 1, 1})) {
            case 0: simfs::put("/sim/w/s/" + name, "c"); files[name] = ext; break;
            case 1: simfs::mkdirs("/sim/w/s/" + name); tricky = true; break;
            case 2: simfs::put("/sim/w/s/." + name, "c"); tricky = true; break;
            case 4: simfs::mklink("/sim/w/s/" + name, "../gone" + std::to_string(i)); files[name] = ext; maybe.insert(name); tricky = true; break;
            case 5: simfs::mkdirs("/sim/w/rd" + std::to_string(i)); simfs::mklink("/sim/w/s/" + name, "../rd" + std::to_string(i)); tricky = true; break;
            case 6: simfs::mkfifo("/sim/w/s/" + name); files[name] = ext; maybe.insert(name); tricky = true; break;
            default: simfs::put("/sim/w/real" + std::to_string(i), "c"); simfs::mklink("/sim/w/s/" + name, "../real" + std::to_string(i)); files[name] = ext; tricky = true;
        }
        if (ext.empty()) tricky = true;
        // the current directory holds something misleading under the same name
        if (sim::flip(1, 4)) { simfs::put("/sim/cwd/other.zzz", "c"); simfs::mklink("/sim/cwd/" + name, "other.zzz"); tricky = true; }
    }
    if (sim::flip(1, 4)) { simfs::mkdirs("/sim/w/s/sub"); simfs::put("/sim/w/s/sub/in.tif", "c"); }
    simfs::dtype_unknown = sim::flip(1, 3);
    simfs::shuffle_listing = sim::flip(2, 3);
    if (tricky || simfs::dtype_unknown) sim::mark_nontrivial();
    for (auto& l : simfs::list_all()) sim::log("tree %s", l.c_str());
    int calls = sim::range(1, 3);
    for (int k = 0; k < calls; k++) {
        std::set<string> wanted; string expr; bool all = false;
        int form = (int) sim::draw(7);
        string e1 = exts[sim::draw(3)], e2 = exts[3 + sim::draw(5)];
        switch (form) {
            case 0: expr = "*.*"; all = true; break;
            case 1: expr = ".*"; all = true; break;
            case 2: expr = e1; wanted = {e1}; break;
            case 3: expr = "." + e1; wanted = {e1}; break;
            case 4: expr = "." + e1 + ",." + e2; wanted = {e1, e2}; break;
            case 5: expr = "*." + e2 + "|*." + e1; wanted = {e1, e2}; break;
            default: expr = "." + e1 + " ." + e2; wanted = {e1, e2};
        }
        string dir = sim::flip(1, 8) ? "/sim/w/none" : sim::flip(1, 10) ? "/sim/w/real0" : "/sim/w/s";
        bool good = dir == "/sim/w/s";
        vector<simfs::Rule> rs;
        int nr = (int) sim::weighted({4, 4, 1});
        for (int i = 0; i < nr; i++) rs.push_back(draw_rule({{simfs::OPENDIR, {EACCES, EMFILE, EIO}}, {simfs::READDIR, {EIO, ENOMEM}}, {simfs::STAT, {EIO, EACCES}}, {simfs::REALPATH, {EIO, EACCES}}}, 12));
        // another process
        int adv = (int) sim::weighted({5, 1, 1, 1}), advat = adv ? (int) sim::skewed(24) : 0; bool advdone = false; string touched;
        uint64_t base = simfs::op_count;
        if (adv && good) simfs::on_op = [&](uint32_t, const string&) {
            if (advdone || simfs::op_count - base != (uint64_t) advat + 1) return;
            advdone = true;
            string name;
            if (adv == 1) { name = "new" + std::to_string(k) + "." + exts[k % 3]; files[name] = exts[k % 3]; simfs::put("/sim/w/s/" + name, "adv"); }
            else { int j = 0; for (auto& f : files) if (j++ == advat % (int) std::max<size_t>(files.size(), 1)) name = f.first; if (name.empty()) return; simfs::rm("/sim/w/s/" + name); if (adv == 3) simfs::mkdirs("/sim/w/s/" + name); }
            maybe.insert(touched = name);
            sim::fault_fired(adv == 1 ? "other-process:create-file" : adv == 2 ? "other-process:remove-file" : "other-process:file-to-directory");
            sim::log("other process acts %d on %s", adv, name.c_str());
            sim::mark_nontrivial();
        };
        uint64_t f0 = simfs::fault_count;
        simfs::arm(rs);
        vector<string> got; int rc = -99;
        guarded("find-files", [&]() { rc = FindFiles(dir.c_str(), expr.c_str(), got); });
        simfs::disarm(); simfs::on_op = nullptr;
        bool fired = simfs::fault_count != f0;
        sim::log("find %s %s -> %d, %zu files (fault %d)", dir.c_str(), expr.c_str(), rc, got.size(), fired);
        check_escapes();
        if (simfs::open_handles()) sim::violate("handle-leak", "%d handles left open", simfs::open_handles());
        if (rc == 0) {
            if (!good) sim::violate("false-success:no-directory", "searching %s, which is no readable directory, reported success", dir.c_str());
            std::set<string> want, have, open;
            for (auto& f : files) if (all || wanted.count(f.second)) (maybe.count(f.first) ? open : want).insert("/sim/w/s/" + f.first);
            for (auto& g : got) if (!have.insert(g).second) sim::violate("duplicate", "%s reported twice", g.c_str());
            for (auto& w : want) if (!have.count(w)) sim::violate(fired ? "missing-under-fault" : "missing", "search '%s' reported success without %s (fault fired: %d)", expr.c_str(), w.c_str(), fired);
            for (auto& h : have) if (!want.count(h) && !open.count(h)) sim::violate("extra", "search '%s' returned %s", expr.c_str(), h.c_str());
        } else if (good && !fired) sim::violate("refused", "searching a healthy directory failed with %d", rc);
        if (!touched.empty() && adv != 1) files.erase(touched);
    }
}
