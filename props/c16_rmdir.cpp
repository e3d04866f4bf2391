#include "props/common.h"
#include "utils_filesystem.h"
#include <set>
const char* const kPropertyId = "C16";
const char* const kRule = "One run = a generated directory tree (nested and empty directories, hidden and long names, fifos, links to files and directories inside and outside, deep paths), unknown or known entry types, shuffled listing order, disk faults during deletion, and one or more delete calls. Non-trivial: a fault fired, or the tree holds a link, a hidden name, a deep path or entry types are unknown.";
const char* const kRealComponents = "CCGL utils_filesystem";
const char* const kStubComponents = "kernel file system (simulated disk below libc); destructive calls outside it are recorded and refused";
void prop_init() {}

static int g_n;
static string fresh() {
    g_n++;
    switch (sim::weighted({10, 2, 2, 1, 1, 1, 1})) {
        case 1: return ".h" + std::to_string(g_n);
        case 2: return "s p" + std::to_string(g_n) + ".d";
        case 3: return "..x" + std::to_string(g_n);
        case 4: return string(sim::flip(1, 2) ? 255 : 200, 'n').substr(3) + std::to_string(100 + g_n % 900);
        case 5: return "...";
        case 6: return "-rf" + std::to_string(g_n);
        default: return "e" + std::to_string(g_n);
    }
}
static bool g_interesting;
static void grow(const string& dir, int depth, const vector<string>& targets) {
    int n = sim::range(0, depth == 0 ? 5 : 3);
    for (int i = 0; i < n; i++) {
        string p = dir + "/" + fresh();
        if (p.size() > 9000) continue;
        switch (sim::weighted({5, 4, 3, 1})) {
            case 0: if (!simfs::exists(p)) simfs::put(p, "x" + std::to_string(g_n)); break;
            case 1: simfs::mkdirs(p); if (depth < 4) grow(p, depth + 1, targets); break;
            case 2: if (!simfs::exists(p)) { simfs::mklink(p, targets[sim::draw((uint32_t) targets.size())]); g_interesting = true; } break;
            default: if (!simfs::exists(p)) simfs::mkfifo(p);
        }
        if (p.find("/.") != string::npos) g_interesting = true;
    }
}
void prop_run() {
    simfs::reset();
    g_n = 0; g_interesting = false;
    simfs::mkdirs("/sim/out/keep");
    simfs::put("/sim/out/keep/a.txt", "precious");
    simfs::put("/sim/out/b.txt", "precious too");
    simfs::mkdirs("/sim/out/empty");
    simfs::mkdirs("/sim/w");
    simfs::put("/sim/w/sibling.txt", "s");
    simfs::mkdirs("/sim/w/victim2");
    simfs::put("/sim/w/victim2/f", "prefix sibling");
    string top = "/sim/w/victim";
    simfs::mkdirs(top);
    vector<string> targets = {"/sim/out/keep", "/sim/out/b.txt", "../../out/keep", "..", ".", "/sim/out/empty", "/sim", "nowhere", "../sibling.txt", "/etc", "../victim2"};
    grow(top, 0, targets);
    if (sim::flip(1, 6)) {     // a path longer than the path-name limit (or close to it)
        string p = top; int lvls = sim::range(14, 22);
        for (int i = 0; i < lvls; i++) {
            // directories beyond the limit are made through the inode tree
            string name(sim::flip(1, 3) ? 240 : 255, (char) ('a' + i % 26));
            int par = -1;
            { // walk without the length limit: extend from the current directory inode
                static int cur; if (i == 0) cur = simfs::lookup(top); par = cur;
                int id = simfs::disk.next++;
                simfs::disk.ino[id].t = simfs::Inode::DIR;
                simfs::disk.ino[par].ents.push_back({name, id});
                if (sim::flip(1, 3)) { int f = simfs::disk.next++; simfs::disk.ino[f].t = simfs::Inode::REG; simfs::disk.ino[f].data = "deep"; simfs::disk.ino[id].ents.push_back({"leaf" + std::to_string(i), f}); }
                cur = id;
            }
        }
        g_interesting = true; sim::probe("deep-path");
    }
    simfs::dtype_unknown = sim::flip(1, 3);
    simfs::shuffle_listing = sim::flip(1, 2);
    if (simfs::dtype_unknown) g_interesting = true;
    if (g_interesting) sim::mark_nontrivial();
    for (auto& l : simfs::list_all()) sim::log("tree %s", l.size() > 300 ? l.substr(0, 300).c_str() : l.c_str());
    int calls = sim::range(1, 3);
    for (int k = 0; k < calls; k++) {
        bool subs = !sim::flip(1, 4);
        int nr = k == calls - 1 && k > 0 ? 0 : (int) sim::weighted({3, 5, 2});
        vector<simfs::Rule> rs;
        for (int i = 0; i < nr; i++)
            rs.push_back(draw_rule({{simfs::UNLINK, {EBUSY, EACCES, EIO, EPERM}}, {simfs::RMDIR, {EBUSY, EACCES, EIO}}, {simfs::OPENDIR, {EACCES, EMFILE, EIO}}, {simfs::READDIR, {EIO}}, {simfs::STAT, {EIO, EACCES}}, {simfs::REALPATH, {EIO, EACCES}}}, 12));
        // what must survive: everything outside the directory
        std::set<string> outside;
        for (auto& l : simfs::list_all()) if (l.compare(0, top.size() + 1, top + "/") != 0) outside.insert(l);
        std::set<string> inside;
        for (auto& l : simfs::list_all()) if (l.compare(0, top.size() + 1, top + "/") == 0 && l != top + "/") inside.insert(l);
        bool existed = simfs::is_dir(top), had_subdir = false, toolong = false;
        for (auto& l : inside) { if (l[l.size() - 1] == '/') had_subdir = true; if (l.size() >= 4090) toolong = true; }
        uint64_t f0 = simfs::fault_count;
        simfs::arm(rs);
        bool ok = false;
        string arg = sim::flip(1, 4) ? top + "/" : top;
        if (sim::flip(1, 6)) arg = "/sim/w/../w/victim";
        guarded("delete-directory", [&]() { ok = ccgl::utils_filesystem::DeleteDirectory(arg, subs); });
        simfs::disarm();
        bool fired = simfs::fault_count != f0;
        sim::log("delete %s subs=%d -> %d (fault %d)", arg.c_str(), subs, ok, fired);
        check_escapes();
        std::set<string> now;
        for (auto& l : simfs::list_all()) now.insert(l);
        for (auto& l : outside) if (l != top + "/" && !now.count(l)) sim::violate("outside-damaged", "an entry outside the directory was removed or changed: %s", l.c_str());
        for (auto& l : now) if (l != top + "/" && !outside.count(l) && !inside.count(l)) sim::violate("created", "deletion created %s", l.substr(0, 300).c_str());
        bool gone = !simfs::is_dir(top);
        if (subs) {
            if (ok && !gone) sim::violate("false-success", "deletion reported success but the directory is still there (fault fired: %d)", fired);
            if (!ok && !fired && !toolong) sim::violate("refused", "deletion of a healthy directory reported failure");
            if (!ok && !fired && gone && existed) sim::violate("false-failure", "deletion reported failure although everything is gone");
        } else {
            // only plain entries may go; sub-directories that hold something keep it
            for (auto& l : inside) {
                string rel = l.substr(top.size() + 1);
                bool nested = rel.find('/') != string::npos && rel.find('/') != rel.size() - 1;
                size_t ar = rel.find(" -> ");
                if (ar != string::npos && rel.find('/') > ar) nested = false;
                if (nested && !now.count(l)) sim::violate("subdir-touched", "content of a sub-directory was removed although sub-directories were to be kept: %s", l.substr(0, 300).c_str());
                if (ok && !nested && l[l.size() - 1] != '/' && now.count(l)) sim::violate("false-success", "deletion reported success but %s is still there", l.substr(0, 300).c_str());
            }
            if (ok && !had_subdir && !gone) sim::violate("false-success", "deletion reported success but the (sub-directory free) directory is still there");
            if (!ok && !fired && !toolong && !had_subdir) sim::violate("refused", "deletion of a healthy directory reported failure");
        }
        if (simfs::open_handles()) sim::violate("handle-leak", "%d directory handles left open", simfs::open_handles());
    }
}
