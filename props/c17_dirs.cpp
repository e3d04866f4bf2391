#include "props/common.h"
#include "utils_filesystem.h"
#include <algorithm>
#include <map>
#include <set>
using namespace ccgl::utils_filesystem;
const char* const kPropertyId = "C17";
const char* const kRule = "One run = a small directory tree, a history of create / clean / delete-file calls on it, disk faults and actions of another process placed between any two file-system operations of a call. Non-trivial: a fault or a concurrent action happened inside a call, or the path named a file, a link or a missing parent.";
const char* const kRealComponents = "CCGL utils_filesystem";
const char* const kStubComponents = "kernel file system (simulated disk below libc); the other process";
void prop_init() {}

static std::set<string> snap() { std::set<string> s; for (auto& l : simfs::list_all()) s.insert(l); return s; }
static string bare(const string& l) {     // path without type marks
    size_t a = l.find(" -> "); if (a != string::npos) return l.substr(0, a);
    a = l.rfind(" #"); if (a != string::npos) return l.substr(0, a);
    if (!l.empty() && (l[l.size() - 1] == '/' || l[l.size() - 1] == '|')) return l.substr(0, l.size() - 1);
    return l;
}
static bool dir_follow(const string& p) { int n = simfs::lookup(p, true); return n >= 0 && simfs::disk.ino[n].t == simfs::Inode::DIR; }
static bool exists_follow(const string& p) { return simfs::lookup(p, true) >= 0; }

void prop_run() {
    simfs::reset();
    simfs::mkdirs("/sim/w/full/sub/deep");
    for (int i = 0, n = sim::range(0, 5); i < n; i++) simfs::put("/sim/w/full/f" + std::to_string(i) + (sim::flip(1, 3) ? "" : i % 2 ? ".txt" : ".tif"), "data" + std::to_string(i));
    if (sim::flip(1, 3)) simfs::put("/sim/w/full/.hidden", "h");
    if (sim::flip(1, 3)) simfs::put("/sim/w/full/sub/deep/x.txt", "deep");
    if (sim::flip(1, 4)) simfs::rm("/sim/w/full/sub");
    if (sim::flip(1, 4)) simfs::mklink("/sim/w/full/lnk", "../file.txt");
    if (sim::flip(1, 5)) simfs::mklink("/sim/w/full/lnkdir", "../other");
    simfs::mkdirs("/sim/w/empty");
    simfs::mkdirs("/sim/w/other");
    simfs::put("/sim/w/other/keep.txt", "keep");
    simfs::put("/sim/w/file.txt", "content");
    simfs::put("/sim/w/file2.txt", "content2");
    simfs::mklink("/sim/w/linkdir", "other");
    simfs::mklink("/sim/w/linkfile", "file2.txt");
    simfs::dtype_unknown = sim::flip(1, 4);
    simfs::shuffle_listing = sim::flip(1, 2);
    vector<string> paths = {"/sim/w/full", "/sim/w/empty", "/sim/w/new", "/sim/w/new/sub", "/sim/w/file.txt", "/sim/w/new2", "/sim/w/full/f0.tif", "/sim/w/full/new", "/sim/w/linkdir", "/sim/w/missing/x", "/sim/w/linkfile", "/sim/w/./empty/", "/sim/w/full/../new"};
    int calls = sim::range(1, 5);
    for (int k = 0; k < calls; k++) {
        int op = (int) sim::draw(3);
        string p = paths[sim::draw((uint32_t) paths.size())];
        vector<simfs::Rule> rs;
        int nr = (int) sim::weighted({4, 4, 1});
        for (int i = 0; i < nr; i++)
            rs.push_back(draw_rule({{simfs::UNLINK, {EBUSY, EACCES, EIO}}, {simfs::MKDIR, {ENOSPC, EACCES, EIO, EROFS}}, {simfs::OPENDIR, {EACCES, EMFILE}}, {simfs::READDIR, {EIO}}, {simfs::STAT, {EIO, EACCES}}, {simfs::ACCESS, {EIO, EACCES}}, {simfs::REALPATH, {EIO, EACCES}}}, 6));
        std::map<string, string> r0;
        for (auto& q : paths) r0[q] = simfs::real(q);
        auto resolved = [&](const string& q) { auto it = r0.find(q); return it == r0.end() || it->second.empty() ? q : it->second; };
        bool dangling = simfs::exists(p) && !exists_follow(p);
        // another process
        int adv = (int) sim::weighted({5, 2, 2, 1, 1}), advat = adv ? (int) sim::skewed(10) : 0;
        bool advdone = false;
        std::set<string> advtouched;
        uint64_t base = simfs::op_count;
        bool isdir0 = dir_follow(p), exist0 = exists_follow(p);
        bool file0 = exist0 && !isdir0;
        string par = p; while (par[par.size() - 1] == '/') par.erase(par.size() - 1); par = par.substr(0, par.rfind('/'));
        bool parent0 = dir_follow(par);
        if (adv) simfs::on_op = [&](uint32_t, const string&) {
            if (advdone || simfs::op_count - base != (uint64_t) advat + 1) return;
            advdone = true;
            sim::fault_fired(adv == 1 ? "other-process:mkdir" : adv == 2 ? "other-process:create-file" : adv == 3 ? "other-process:remove-file" : "other-process:create-target-file");
            string t;
            if (adv == 1) { t = p; while (t.size() > 1 && t[t.size() - 1] == '/') t.erase(t.size() - 1); if (!simfs::exists(t) && dir_follow(t.substr(0, t.rfind('/')))) simfs::mkdirs(t); }
            else if (adv == 2) { if (dir_follow(p)) { t = resolved(p) + "/adv.txt"; simfs::put(t, "adv"); } }
            else if (adv == 3) { int n = simfs::lookup(p, true); if (n >= 0 && simfs::disk.ino[n].t == simfs::Inode::DIR && !simfs::disk.ino[n].ents.empty()) { string nm = simfs::disk.ino[n].ents[0].first; if (simfs::is_file(resolved(p) + "/" + nm)) { t = resolved(p) + "/" + nm; simfs::rm(t); } } else if (simfs::is_file(p)) { t = p; simfs::rm(t); } }
            else { if (!simfs::exists(p) && dir_follow(p.substr(0, p.rfind('/')))) { t = p; simfs::put(t, "adv"); } }
            sim::log("other process acts %d on %s", adv, t.c_str());
            if (!t.empty()) advtouched.insert(t);
        };
        std::set<string> before = snap();
        uint64_t f0 = simfs::fault_count;
        simfs::arm(rs);
        bool ok = false; int rc = 0;
        if (op == 0) guarded("make-directory", [&]() { ok = MakeDirectory(p); });
        else if (op == 1) guarded("clean-directory", [&]() { ok = CleanDirectory(p); });
        else { guarded("delete-file", [&]() { rc = DeleteExistedFile(p); }); ok = rc == 0; }
        simfs::disarm(); simfs::on_op = nullptr;
        bool fired = simfs::fault_count != f0;
        sim::log("call %d op %d %s -> %d (fault %d, other process %d)", k, op, p.c_str(), ok, fired, advdone);
        if (file0 || !parent0 || p.find("link") != string::npos) sim::mark_nontrivial();
        check_escapes();
        if (simfs::open_handles()) sim::violate("handle-leak", "%d handles left open", simfs::open_handles());
        std::set<string> after = snap();
        // resolved name of the target, for what may change
        string rp = resolved(p);
        auto allowed = [&](const string& l) {
            string b = bare(l);
            for (auto& t : advtouched) { string u = resolved(t); if (b == u || b == t || b.compare(0, u.size() + 1, u + "/") == 0) return true; if (t.find("linkdir/") != string::npos && b == "/sim/w/other/" + t.substr(t.rfind('/') + 1)) return true; }
            if (op == 1) {   // direct children of the cleaned directory
                if (b == rp || b == p) return true;
                if (b.compare(0, rp.size() + 1, rp + "/") == 0 && b.find('/', rp.size() + 1) == string::npos) return true;
                return false;
            }
            return b == rp || b == p;
        };
        for (auto& l : before) if (!after.count(l) && !allowed(l)) sim::violate("outside-removed", "an entry that was not named disappeared or changed: %s (call %d on %s)", l.c_str(), op, p.c_str());
        for (auto& l : after) if (!before.count(l) && !allowed(l)) sim::violate("outside-created", "an entry that was not named appeared: %s (call %d on %s)", l.c_str(), op, p.c_str());
        if (op == 0) {
            for (auto& l : before) if (!after.count(l) && advtouched.empty()) sim::violate("make-removed", "creating a directory removed %s", l.c_str());
            if (ok && !dir_follow(p)) sim::violate("make-false-success", "creating %s reported success but it is not a directory", p.c_str());
            if (!ok && !fired && dir_follow(p) ) sim::violate("make-false-failure", "creating %s reported failure although the directory exists (another process acted: %d)", p.c_str(), advdone);
            if (!ok && !fired && !advdone && !file0 && parent0 && !dangling) sim::violate("make-refused", "creating %s failed without reason", p.c_str());
        } else if (op == 1) {
            if (ok) {
                if (!dir_follow(p)) sim::violate("clean-false-success", "cleaning %s reported success but it is not a directory", p.c_str());
                for (auto& l : before) {
                    if (l[l.size() - 1] == '/' || !after.count(l)) continue;
                    string b = bare(l);
                    if (b.compare(0, rp.size() + 1, rp + "/") != 0 || b.find('/', rp.size() + 1) != string::npos) continue;
                    string nm = b.substr(rp.size() + 1);
                    if (nm[0] == '.') continue;
                    if (l.find(" -> ") != string::npos) continue;
                    sim::violate("clean-left-file", "cleaning %s reported success but %s is still there (fault fired: %d)", p.c_str(), b.c_str(), fired);
                }
            } else if (!fired && !advdone && !file0 && (isdir0 || parent0) && !dangling) sim::violate("clean-refused", "cleaning %s failed without reason", p.c_str());
        } else {
            if (isdir0) continue;
            if (ok && exists_follow(p) && !advtouched.count(p)) sim::violate("delete-false-success", "deleting %s reported success but it exists", p.c_str());
            if (!ok && !fired && !advdone && file0) sim::violate("delete-refused", "deleting the existing file %s failed without reason", p.c_str());
        }
    }
}
