#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "fs.h"
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <utime.h>
#undef fileno
#undef stat64
#undef lstat64
#undef fstat64

namespace simclock { int64_t peek_s(); void tick(uint64_t ns); }
namespace simthr { bool yield(); }

namespace simfs {

Disk disk;
std::vector<Rule> rules;
bool armed = false, dtype_unknown = false, shuffle_listing = false, sim_relative = false, yield_points = false;
std::string sim_cwd = "/sim";
std::vector<std::string> escapes, removals;
uint64_t op_count = 0, mut_count = 0, fault_count = 0, op_bound = 0;
std::function<void(uint32_t, const std::string&)> on_op;
int64_t crash_at = -1;
int crash_torn = 0;
bool crash_taken = false;
Disk crash_disk;
std::string crash_what;

enum { FDBASE = 1 << 20, ROOT = 1 };
struct Handle { int ino = 0; int64_t off = 0; int flags = 0; std::string path; bool append = false, rd = false, wr = false, used = false; };
static std::deque<Handle>& fds() { static std::deque<Handle>* v = new std::deque<Handle>(); return *v; }   // references stay valid
struct SimDir { uint64_t magic; std::vector<std::pair<std::string, int>> ents; size_t pos; std::string path; int ino; struct dirent64 de; struct dirent de32; int fd; };
static std::set<void*>& dirs() { static std::set<void*>* s = new std::set<void*>(); return *s; }
static std::map<void*, int>& files() { static std::map<void*, int>* s = new std::map<void*, int>(); return *s; }

const char* op_name(uint32_t op) {
    switch (op) {
        case OPEN_R: return "open-read"; case OPEN_W: return "open-write"; case READ: return "read"; case WRITE: return "write";
        case CLOSE: return "close"; case SEEK: return "seek"; case STAT: return "stat"; case UNLINK: return "unlink"; case MKDIR: return "mkdir";
        case RMDIR: return "rmdir"; case OPENDIR: return "opendir"; case READDIR: return "readdir"; case RENAME: return "rename";
        case TRUNC: return "truncate"; case REALPATH: return "realpath"; case ACCESS: return "access"; case FSYNC: return "fsync"; case LINK: return "link";
    }
    return "op";
}

// ---- paths -------------------------------------------------------------
static bool prefix(const std::string& p) { return p == "/sim" || p.compare(0, 5, "/sim/") == 0; }
static bool mine(const char* p) {
    if (!p) return false;
    if (p[0] == '/') {
        // collapse leading duplicate slashes
        while (p[0] == '/' && p[1] == '/') p++;
        return strncmp(p, "/sim", 4) == 0 && (p[4] == 0 || p[4] == '/');
    }
    return sim_relative && p[0] != 0;
}
static std::string absol(const char* p) {
    if (p[0] == '/') return p;
    return sim_cwd + "/" + p;
}
// resolve: returns inode or -errno; parent inode and last component reported; real path in rp
static int resolve(const std::string& path, bool follow, int* parent, std::string* last, std::string* rp, int depth = 0) {
    if (depth > 40) return -ELOOP;
    if (path.size() >= 4096) return -ENAMETOOLONG;
    // the tree has a virtual root "/" whose only child is "sim"
    std::vector<std::string> comp;
    size_t i = 0;
    while (i < path.size()) {
        while (i < path.size() && path[i] == '/') i++;
        size_t j = i;
        while (j < path.size() && path[j] != '/') j++;
        if (j > i) comp.push_back(path.substr(i, j - i));
        i = j;
    }
    bool trailing = !path.empty() && path[path.size() - 1] == '/';
    if (comp.empty() || comp[0] != "sim") return -ENOENT;
    std::vector<std::pair<int, std::string>> st;
    st.push_back(std::make_pair((int) ROOT, std::string("/sim")));
    for (size_t k = 1; k < comp.size(); k++) {
        const std::string& c = comp[k];
        if (c.size() > 255) return -ENAMETOOLONG;
        Inode& d = disk.ino[st.back().first];
        if (d.t != Inode::DIR) return -ENOTDIR;
        if (c == ".") continue;
        if (c == "..") { if (st.size() > 1) st.pop_back(); continue; }
        int f = 0;
        for (auto& e : d.ents) if (e.first == c) { f = e.second; break; }
        bool lastc = k + 1 == comp.size();
        if (lastc) { if (parent) *parent = st.back().first; if (last) *last = c; }
        if (!f) { if (rp) *rp = st.back().second + "/" + c; return -ENOENT; }
        Inode& n = disk.ino[f];
        if (n.t == Inode::LNK && (!lastc || follow || trailing)) {
            std::string t = n.data;
            if (t.empty()) return -ENOENT;
            if (t[0] != '/') t = st.back().second + "/" + t;
            for (size_t m = k + 1; m < comp.size(); m++) t += "/" + comp[m];
            if (!prefix(t)) return -EXDEV;   // link to the outside world: never followed for real
            int pp = 0; std::string ll;
            int r = resolve(t, follow, &pp, &ll, rp, depth + 1);
            if (lastc) { if (parent) *parent = pp ? pp : ROOT; if (last) *last = ll; }
            else { if (parent) *parent = pp; if (last) *last = ll; }
            return r;
        }
        st.push_back(std::make_pair(f, st.back().second + "/" + c));
    }
    if (comp.size() == 1) { if (parent) *parent = 0; if (last) *last = "sim"; }
    if (trailing && disk.ino[st.back().first].t != Inode::DIR) return -ENOTDIR;
    if (rp) *rp = st.back().second;
    return st.back().first;
}
std::string real(const std::string& p) { std::string r; int par = 0; int n = resolve(p, true, &par, nullptr, &r); return n >= 0 || (n == -ENOENT && par) ? r : std::string(); }
int lookup(const std::string& p, bool follow) { return resolve(p, follow, nullptr, nullptr, nullptr); }

// ---- faults ------------------------------------------------------------
static int check(uint32_t op, const std::string& path, int* partial = nullptr) {
    op_count++;
    if (op_bound && op_count > op_bound) sim::give_up("given-up:libtiff-loop");
    sim::step(1);
    if (yield_points) simthr::yield();
    simclock::tick(20000 + 1000 * (op_count % 7));
    if (on_op) { std::function<void(uint32_t, const std::string&)> f = on_op; on_op = nullptr; f(op, path); if (!on_op) on_op = f; }
    if (!armed) return 0;
    for (auto& r : rules) {
        if (!(r.ops & op)) continue;
        if (!r.under.empty() && path.compare(0, r.under.size(), r.under) != 0) continue;
        int k = r.seen++;
        if (k == r.nth || (r.sticky && k > r.nth)) {
            r.fired++; fault_count++;
            char b[80];
            if (r.err == -1) snprintf(b, sizeof b, "disk:%s:short", op_name(op));
            else snprintf(b, sizeof b, "disk:%s:%s%s", op_name(op), strerrorname_np(r.err) ? strerrorname_np(r.err) : "?", r.sticky ? ":sticky" : "");
            sim::fault_fired(b);
            sim::log("FAULT %s %s", b, path.c_str());
            if (partial) *partial = r.partial;
            return r.err;
        }
    }
    return 0;
}
static void before_mut(const std::string& what) {
    if (crash_at >= 0 && !crash_taken && (int64_t) mut_count == crash_at) {
        crash_taken = true; crash_disk = disk; crash_what = what;
        sim::fault_fired("crash:between-operations");
        sim::log("CRASH before %s", what.c_str());
    }
    mut_count++;
}
static void relist(int ino, std::vector<std::pair<std::string, int>>& e) {
    (void) ino;
    if (shuffle_listing)
        for (size_t i = e.size(); i > 1; i--) { size_t j = i - 1 - sim::draw((uint32_t) i); std::swap(e[i - 1], e[j]); }
}
static int64_t used() { int64_t n = 0; for (auto& i : disk.ino) if (i.second.t == Inode::REG) n += i.second.data.size(); return n; }

// ---- core operations (return >=0 or -errno) --------------------------------
static int newfd(const Handle& h) {
    auto& v = fds();
    for (size_t i = 0; i < v.size(); i++) if (!v[i].used) { v[i] = h; v[i].used = true; return FDBASE + (int) i; }
    v.push_back(h); v.back().used = true;
    return FDBASE + (int) v.size() - 1;
}
static Handle* H(int fd) {
    auto& v = fds();
    if (fd < FDBASE || fd >= FDBASE + (int) v.size() || !v[fd - FDBASE].used) return nullptr;
    return &v[fd - FDBASE];
}
static bool fake(int fd) { return fd >= FDBASE && fd < FDBASE + (1 << 16); }

static int do_open(const std::string& p, int flags, int) {
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    int e = check(wr ? OPEN_W : OPEN_R, p);
    int par = 0; std::string last, rp;
    if (e > 0) return -e;
    int n = resolve(p, !(flags & O_NOFOLLOW), &par, &last, &rp);
    if (n == -ENOENT && (flags & O_CREAT)) {
        if (!par || !disk.ino.count(par)) return -ENOENT;
        if (p[p.size() - 1] == '/') return -EISDIR;
        before_mut("create " + rp);
        n = disk.next++;
        disk.ino[n].t = Inode::REG; disk.ino[n].mtime = simclock::peek_s();
        disk.ino[par].ents.push_back(std::make_pair(last, n));
        sim::log("create %s", rp.c_str());
    } else if (n < 0) { sim::log("open %s -> %s", p.c_str(), strerrorname_np(-n)); return n; }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
    Inode& i = disk.ino[n];
    if (i.t == Inode::DIR && wr) return -EISDIR;
    if ((flags & O_DIRECTORY) && i.t != Inode::DIR) return -ENOTDIR;
    if (i.t == Inode::LNK) return -ELOOP;
    if (i.t == Inode::FIFO) return -ENXIO;
    if ((flags & O_TRUNC) && wr && !i.data.empty()) { before_mut("truncate " + rp); i.data.clear(); sim::log("truncate %s", rp.c_str()); }
    Handle h; h.ino = n; h.flags = flags; h.path = rp; h.append = flags & O_APPEND; h.wr = wr; h.rd = (flags & O_ACCMODE) != O_WRONLY;
    i.nlink += 1000;    // open reference
    return newfd(h);
}
static void drop(int ino) {
    auto it = disk.ino.find(ino);
    if (it != disk.ino.end() && it->second.nlink <= 0) disk.ino.erase(it);
}
static int do_close(int fd) {
    Handle* h = H(fd);
    if (!h) return -EBADF;
    int e = check(CLOSE, h->path);
    int ino = h->ino;
    h->used = false;
    auto it = disk.ino.find(ino);
    if (it != disk.ino.end()) { it->second.nlink -= 1000; drop(ino); }
    return e > 0 ? -e : 0;
}
static ssize_t do_pread(Handle* h, void* b, size_t n, int64_t off) {
    Inode& i = disk.ino[h->ino];
    int e = check(READ, h->path);
    if (e > 0) return -e;
    if (i.t == Inode::DIR) return -EISDIR;
    if (!h->rd) return -EBADF;
    if (off >= (int64_t) i.data.size()) return 0;
    size_t m = std::min(n, i.data.size() - (size_t) off);
    if (e == -1 && m > 1) m = 1 + m / 3;
    memcpy(b, i.data.data() + off, m);
    return (ssize_t) m;
}
static ssize_t do_pwrite(Handle* h, const void* b, size_t n, int64_t off, bool app) {
    int part = 0;
    int e = check(WRITE, h->path, &part);
    if (!h->wr) return -EBADF;
    Inode& i = disk.ino[h->ino];
    if (app) off = (int64_t) i.data.size();
    size_t m = n;
    if (e > 0) { m = n * part / 1000; }
    else if (e == -1 && n > 1) m = 1 + n / 3;
    bool full = false;
    if (disk.capacity >= 0) {
        int64_t end = std::max<int64_t>(off + (int64_t) m, (int64_t) i.data.size());
        int64_t over = used() - (int64_t) i.data.size() + end - disk.capacity;
        if (over > 0) { full = true; m = (int64_t) m > over ? m - (size_t) over : 0; }
    }
    if (m > 0) {
        if (crash_at >= 0 && !crash_taken && (int64_t) mut_count == crash_at) {
            size_t t = m * crash_torn / 1000;
            if (t > 0) {
                if ((int64_t) i.data.size() < off + (int64_t) t) i.data.resize(off + t, 0);
                memcpy(&i.data[off], b, t);
            }
            crash_taken = true; crash_disk = disk;
            char w[64]; snprintf(w, sizeof w, "write %zu of %zu at %lld ", t, m, (long long) off);
            crash_what = w + h->path;
            sim::fault_fired(t ? "crash:inside-write" : "crash:between-operations");
            sim::log("CRASH in %s", crash_what.c_str());
        }
        mut_count++;
        if ((int64_t) i.data.size() < off + (int64_t) m) i.data.resize(off + m, 0);
        memcpy(&i.data[off], b, m);
        i.mtime = simclock::peek_s();
        sim::log("write %s @%lld +%zu #%08x", h->path.c_str(), (long long) off, m, (unsigned) sim::fnv(b, m));
    }
    if (full && m < n) {
        if (m == 0) { sim::fault_fired("disk:full"); sim::log("FAULT disk full %s", h->path.c_str()); fault_count++; return -ENOSPC; }
        return (ssize_t) m;
    }
    if (e > 0) return m > 0 ? (ssize_t) m : -e;
    return (ssize_t) m;
}
static ssize_t do_read(int fd, void* b, size_t n) {
    Handle* h = H(fd);
    if (!h) return -EBADF;
    ssize_t r = do_pread(h, b, n, h->off);
    if (r > 0) h->off += r;
    return r;
}
static ssize_t do_write(int fd, const void* b, size_t n) {
    Handle* h = H(fd);
    if (!h) return -EBADF;
    bool app = h->append;
    if (app) h->off = (int64_t) disk.ino[h->ino].data.size();
    ssize_t r = do_pwrite(h, b, n, h->off, app);
    if (r > 0) h->off += r;
    return r;
}
static int64_t do_lseek(int fd, int64_t o, int wh) {
    Handle* h = H(fd);
    if (!h) return -EBADF;
    int e = check(SEEK, h->path);
    if (e > 0) return -e;
    int64_t nb = wh == SEEK_SET ? o : wh == SEEK_CUR ? h->off + o : (int64_t) disk.ino[h->ino].data.size() + o;
    if (nb < 0) return -EINVAL;
    h->off = nb;
    return nb;
}
static int do_trunc(int ino, int64_t len, const std::string& p) {
    int e = check(TRUNC, p);
    if (e > 0) return -e;
    Inode& i = disk.ino[ino];
    if (disk.capacity >= 0 && len > (int64_t) i.data.size() && used() - (int64_t) i.data.size() + len > disk.capacity) { sim::fault_fired("disk:full"); return -ENOSPC; }
    if (len > (1 << 28)) return -EFBIG;
    before_mut("truncate " + p);
    i.data.resize(len, 0);
    sim::log("truncate %s %lld", p.c_str(), (long long) len);
    return 0;
}
struct St { uint64_t ino; uint32_t mode; uint64_t size; int64_t mtime; int nlink; };
static int fill(int n, St* s) {
    auto it = disk.ino.find(n);
    if (it == disk.ino.end()) return -ENOENT;
    Inode& i = it->second;
    s->ino = n;
    s->mode = i.t == Inode::DIR ? (S_IFDIR | 0755) : i.t == Inode::LNK ? (S_IFLNK | 0777) : i.t == Inode::FIFO ? (S_IFIFO | 0644) : (S_IFREG | 0644);
    s->size = i.t == Inode::DIR ? 4096 : i.data.size();
    s->mtime = i.mtime;
    s->nlink = std::max(1, i.nlink % 1000);
    return 0;
}
static int do_stat(const std::string& p, bool follow, St* s) {
    int e = check(STAT, p);
    if (e > 0) return -e;
    int n = resolve(p, follow, nullptr, nullptr, nullptr);
    sim::log("stat %s -> %s", p.c_str(), n < 0 ? strerrorname_np(-n) : "ok");
    if (n < 0) return n;
    return fill(n, s);
}
static int do_access(const std::string& p) {
    int e = check(ACCESS, p);
    if (e > 0) return -e;
    int n = resolve(p, true, nullptr, nullptr, nullptr);
    sim::log("access %s -> %s", p.c_str(), n < 0 ? strerrorname_np(-n) : "ok");
    return n < 0 ? n : 0;
}
static int do_mkdir(const std::string& p) {
    int e = check(MKDIR, p);
    if (e > 0) return -e;
    int par = 0; std::string last, rp, q = p;
    while (q.size() > 1 && q[q.size() - 1] == '/') q.erase(q.size() - 1);
    int n = resolve(q, false, &par, &last, &rp);
    sim::log("mkdir %s -> %s", p.c_str(), n >= 0 ? "EEXIST" : n == -ENOENT && par ? "ok" : strerrorname_np(-n));
    if (n >= 0) return -EEXIST;
    if (n != -ENOENT) return n;
    if (!par) return -ENOENT;
    before_mut("mkdir " + rp);
    n = disk.next++;
    disk.ino[n].t = Inode::DIR;
    disk.ino[par].ents.push_back(std::make_pair(last, n));
    return 0;
}
static void unlinkent(int par, const std::string& last) {
    auto& v = disk.ino[par].ents;
    for (size_t i = 0; i < v.size(); i++) if (v[i].first == last) { v.erase(v.begin() + i); break; }
}
static int do_unlink(const std::string& p) {
    int e = check(UNLINK, p);
    if (e > 0) return -e;
    int par = 0; std::string last, rp;
    int n = resolve(p, false, &par, &last, &rp);
    sim::log("unlink %s -> %s", p.c_str(), n < 0 ? strerrorname_np(-n) : disk.ino[n].t == Inode::DIR ? "EISDIR" : "ok");
    if (n < 0) return n;
    if (disk.ino[n].t == Inode::DIR) return -EISDIR;
    before_mut("unlink " + rp);
    unlinkent(par, last);
    disk.ino[n].nlink--; 
    if (disk.ino[n].nlink <= 0) drop(n);
    removals.push_back(rp);
    return 0;
}
static int do_rmdir(const std::string& p) {
    int e = check(RMDIR, p);
    if (e > 0) return -e;
    int par = 0; std::string last, rp, q = p;
    while (q.size() > 1 && q[q.size() - 1] == '/') q.erase(q.size() - 1);
    int n = resolve(q, false, &par, &last, &rp);
    const char* r = n < 0 ? strerrorname_np(-n) : disk.ino[n].t != Inode::DIR ? "ENOTDIR" : !disk.ino[n].ents.empty() ? "ENOTEMPTY" : "ok";
    sim::log("rmdir %s -> %s", p.c_str(), r);
    if (n < 0) return n;
    if (disk.ino[n].t != Inode::DIR) return -ENOTDIR;
    if (!disk.ino[n].ents.empty()) return -ENOTEMPTY;
    if (n == ROOT) return -EBUSY;
    before_mut("rmdir " + rp);
    unlinkent(par, last);
    disk.ino.erase(n);
    removals.push_back(rp);
    return 0;
}
static int do_rename(const std::string& a, const std::string& b) {
    int e = check(RENAME, a);
    if (e > 0) return -e;
    int pa = 0, pb = 0; std::string la, lb, ra, rb;
    int n = resolve(a, false, &pa, &la, &ra);
    if (n < 0) return n;
    int m = resolve(b, false, &pb, &lb, &rb);
    if (m < 0 && (m != -ENOENT || !pb)) return m;
    if (m == n) return 0;
    if (m > 0) {
        if (disk.ino[m].t == Inode::DIR) { if (disk.ino[n].t != Inode::DIR) return -EISDIR; if (!disk.ino[m].ents.empty()) return -ENOTEMPTY; }
        else if (disk.ino[n].t == Inode::DIR) return -ENOTDIR;
    }
    before_mut("rename " + ra + " " + rb);
    if (m > 0) { unlinkent(pb, lb); disk.ino[m].nlink--; if (disk.ino[m].nlink <= 0) drop(m); }
    unlinkent(pa, la);
    disk.ino[pb].ents.push_back(std::make_pair(lb, n));
    sim::log("rename %s %s", ra.c_str(), rb.c_str());
    return 0;
}
static int do_realpath(const std::string& p, std::string& out) {
    int e = check(REALPATH, p);
    if (e > 0) return -e;
    std::string rp;
    int n = resolve(p, true, nullptr, nullptr, &rp);
    sim::log("realpath %s -> %s", p.c_str(), n < 0 ? strerrorname_np(-n) : rp.c_str());
    if (n < 0) return n;
    out = rp;
    return 0;
}
static SimDir* do_opendir(const std::string& p, int* err) {
    int e = check(OPENDIR, p);
    if (e > 0) { *err = e; return nullptr; }
    std::string rp;
    int n = resolve(p, true, nullptr, nullptr, &rp);
    sim::log("opendir %s -> %s", p.c_str(), n < 0 ? strerrorname_np(-n) : "ok");
    if (n < 0) { *err = -n; return nullptr; }
    if (disk.ino[n].t != Inode::DIR) { *err = ENOTDIR; return nullptr; }
    SimDir* d = new SimDir();
    d->path = rp; d->ino = n; d->pos = 0; d->fd = -1;
    d->ents = disk.ino[n].ents;
    relist(n, d->ents);
    size_t k = d->ents.size() ? (shuffle_listing ? sim::draw((uint32_t) d->ents.size() + 1) : 0) : 0;
    d->ents.insert(d->ents.begin() + k, std::make_pair(std::string(".."), (int) ROOT));
    d->ents.insert(d->ents.begin() + (k / 2), std::make_pair(std::string("."), n));
    dirs().insert(d);
    return d;
}
static bool isdir(void* d) { return dirs().count(d) > 0; }
static int nextent(SimDir* d, std::string& name, unsigned char& type, uint64_t& ino) {
    int e = check(READDIR, d->path);
    if (e > 0) return -e;
    while (d->pos < d->ents.size()) {
        auto& x = d->ents[d->pos++];
        name = x.first; ino = x.second;
        if (name != "." && name != "..") {   // entries removed meanwhile are not reported
            bool still = false;
            auto it = disk.ino.find(d->ino);
            if (it != disk.ino.end()) for (auto& y : it->second.ents) if (y.first == name) { still = true; ino = y.second; }
            if (!still) continue;
        }
        auto it = disk.ino.find((int) ino);
        Inode::T t = it == disk.ino.end() ? Inode::DIR : it->second.t;
        type = dtype_unknown ? DT_UNKNOWN : t == Inode::DIR ? DT_DIR : t == Inode::LNK ? DT_LNK : t == Inode::FIFO ? DT_FIFO : DT_REG;
        return 1;
    }
    return 0;
}

// ---- workload helpers ------------------------------------------------------
void reset() {
    disk = Disk();
    disk.ino[ROOT].t = Inode::DIR;
    rules.clear(); armed = false; dtype_unknown = shuffle_listing = false; sim_relative = false; sim_cwd = "/sim";
    escapes.clear(); removals.clear(); op_count = mut_count = fault_count = op_bound = 0; on_op = nullptr;
    crash_at = -1; crash_torn = 0; crash_taken = false; crash_disk = Disk(); crash_what.clear();
}
void disarm() { armed = false; rules.clear(); }
void arm(const std::vector<Rule>& r) {
    rules = r; armed = true;
    for (auto& x : rules) sim::log("arm ops=%x nth=%d err=%d part=%d sticky=%d under=%s", x.ops, x.nth, x.err, x.partial, x.sticky, x.under.c_str());
}
bool exists(const std::string& p) { return lookup(p, false) >= 0; }
bool is_dir(const std::string& p) { int n = lookup(p, false); return n >= 0 && disk.ino[n].t == Inode::DIR; }
bool is_file(const std::string& p) { int n = lookup(p, false); return n >= 0 && disk.ino[n].t == Inode::REG; }
bool get(const std::string& p, std::string& d) {
    int n = lookup(p, true);
    if (n < 0 || disk.ino[n].t != Inode::REG) return false;
    d = disk.ino[n].data;
    return true;
}
static int mk(const std::string& p, Inode::T t, const std::string& data) {
    int par = 0; std::string last, rp;
    int n = resolve(p, false, &par, &last, &rp);
    if (n >= 0) { disk.ino[n].data = data; return n; }
    if (n != -ENOENT || !par) return n;
    n = disk.next++;
    disk.ino[n].t = t; disk.ino[n].data = data;
    disk.ino[par].ents.push_back(std::make_pair(last, n));
    return n;
}
void put(const std::string& p, const std::string& d) { mk(p, Inode::REG, d); }
void mklink(const std::string& p, const std::string& t) { mk(p, Inode::LNK, t); }
void mkfifo(const std::string& p) { mk(p, Inode::FIFO, ""); }
void mkdirs(const std::string& p) {
    for (size_t i = 5; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { std::string q = p.substr(0, i); if (!exists(q)) mk(q, Inode::DIR, ""); }
}
static void rmtree(int n) {
    auto e = disk.ino[n].ents;
    for (auto& x : e) rmtree(x.second);
    if (disk.ino[n].t == Inode::DIR) disk.ino.erase(n);
    else { disk.ino[n].nlink--; drop(n); }
}
bool rm(const std::string& p) {
    int par = 0; std::string last;
    int n = resolve(p, false, &par, &last, nullptr);
    if (n < 0 || !par) return false;
    unlinkent(par, last);
    rmtree(n);
    return true;
}
static void walk(int n, const std::string& p, std::vector<std::string>& out) {
    for (auto& e : disk.ino[n].ents) {
        Inode& c = disk.ino[e.second];
        std::string q = p + "/" + e.first;
        if (c.t == Inode::DIR) { out.push_back(q + "/"); walk(e.second, q, out); }
        else if (c.t == Inode::LNK) out.push_back(q + " -> " + c.data);
        else if (c.t == Inode::FIFO) out.push_back(q + "|");
        else { char b[40]; snprintf(b, sizeof b, " #%zu:%08x", c.data.size(), (unsigned) sim::fnv(c.data.data(), c.data.size())); out.push_back(q + b); }
    }
}
std::vector<std::string> list_all() { std::vector<std::string> v; walk(ROOT, "/sim", v); std::sort(v.begin(), v.end()); return v; }
uint64_t digest() { uint64_t h = 1469598103934665603ull; for (auto& s : list_all()) h = sim::fnv(s.data(), s.size(), h); return h; }
int open_handles() { int n = 0; for (auto& h : fds()) if (h.used) n++; return n + (int) dirs().size(); }

template <class F> static F real(const char* n) { F f = (F) dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "no symbol %s\n", n); _exit(99); } return f; }
static int ret(int64_t r) { if (r < 0) { errno = (int) -r; return -1; } return (int) r; }
static ssize_t rets(ssize_t r) { if (r < 0) { errno = (int) -r; return -1; } return r; }
// destructive call outside /sim: recorded, never performed
static int escape(const char* what, const char* p) {
    escapes.push_back(std::string(what) + " " + (p ? p : ""));
    sim::log("ESCAPE %s %s", what, p ? p : "");
    errno = EPERM;
    return -1;
}
static bool write_ok_outside(const char* p) { return !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/self/", 11); }
static std::string at(int dfd, const char* p, bool* is) {
    if (p && p[0] == '/') { *is = mine(p); return p; }
    if (fake(dfd)) { Handle* h = H(dfd); *is = h != nullptr; return h ? h->path + (p && *p ? std::string("/") + p : std::string()) : std::string(p ? p : ""); }
    if (dfd == AT_FDCWD) { *is = mine(p); return *is ? absol(p) : std::string(p ? p : ""); }
    *is = false; return p ? p : "";
}
static int open_any(const char* p, int flags, int mode, int dfd = AT_FDCWD) {
    bool is = false;
    std::string q = at(dfd, p, &is);
    if (is) return ret(do_open(absol(q.c_str()), flags, mode));
    if (((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) && !write_ok_outside(p)) return escape("open-write", p);
    return (int) syscall(SYS_openat, dfd, p, flags, mode);
}
static void tostat(const St& s, struct stat* b) {
    memset(b, 0, sizeof *b);
    b->st_ino = s.ino; b->st_mode = s.mode; b->st_size = s.size; b->st_mtime = s.mtime; b->st_atime = s.mtime; b->st_ctime = s.mtime;
    b->st_nlink = s.nlink; b->st_blksize = 4096; b->st_blocks = (s.size + 511) / 512; b->st_dev = 77;
}
}  // namespace simfs
using namespace simfs;

// ================= libc interface =================
extern "C" {
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open_any(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open_any(p, fl | O_LARGEFILE, m); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open_any(p, fl, m, d); }
int openat64(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open_any(p, fl, m, d); }
int __open_2(const char* p, int fl) { return open_any(p, fl, 0); }
int __open64_2(const char* p, int fl) { return open_any(p, fl, 0); }
int creat(const char* p, mode_t m) { return open_any(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return open_any(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t read(int fd, void* b, size_t n) { if (fake(fd)) return rets(do_read(fd, b, n)); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (fake(fd)) return rets(do_write(fd, b, n)); return syscall(SYS_write, fd, b, n); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { if (fake(fd)) { Handle* h = H(fd); return rets(h ? do_pread(h, b, n, o) : -EBADF); } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { if (fake(fd)) { Handle* h = H(fd); return rets(h ? do_pwrite(h, b, n, o, h->append) : -EBADF); } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    if (!fake(fd)) return syscall(SYS_readv, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; }
    return t;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!fake(fd)) return syscall(SYS_writev, fd, v, c);
    std::string s;
    for (int i = 0; i < c; i++) s.append((const char*) v[i].iov_base, v[i].iov_len);
    return write(fd, s.data(), s.size());
}
off64_t lseek64(int fd, off64_t o, int w) { if (fake(fd)) { int64_t r = do_lseek(fd, o, w); if (r < 0) { errno = (int) -r; return -1; } return r; } return syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int close(int fd) { if (fake(fd)) return ret(do_close(fd)); return (int) syscall(SYS_close, fd); }
int ftruncate64(int fd, off64_t l) { if (fake(fd)) { Handle* h = H(fd); return ret(!h || !h->wr ? -EBADF : do_trunc(h->ino, l, h->path)); } return (int) syscall(SYS_ftruncate, fd, l); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int truncate64(const char* p, off64_t l) { if (mine(p)) { int n = lookup(absol(p)); return ret(n < 0 ? n : do_trunc(n, l, p)); } return escape("truncate", p); }
int truncate(const char* p, off_t l) { return truncate64(p, l); }
int fsync(int fd) { if (fake(fd)) { Handle* h = H(fd); int e = check(FSYNC, h ? h->path : ""); return ret(e > 0 ? -e : 0); } return (int) syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int fstat(int fd, struct stat* b) {
    if (fake(fd)) { Handle* h = H(fd); if (!h) return ret(-EBADF); int e = check(STAT, h->path); if (e > 0) return ret(-e); St s; int r = fill(h->ino, &s); if (r < 0) return ret(r); tostat(s, b); return 0; }
    return (int) syscall(SYS_fstat, fd, b);
}
int fstat64(int fd, struct stat64* b) { return fstat(fd, (struct stat*) b); }
int __fxstat(int, int fd, struct stat* b) { return fstat(fd, b); }
int __fxstat64(int, int fd, struct stat64* b) { return fstat(fd, (struct stat*) b); }
int stat(const char* p, struct stat* b) { if (mine(p)) { St s; int r = do_stat(absol(p), true, &s); if (r < 0) return ret(r); tostat(s, b); return 0; } return (int) syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int stat64(const char* p, struct stat64* b) { return stat(p, (struct stat*) b); }
int __xstat(int, const char* p, struct stat* b) { return stat(p, b); }
int __xstat64(int, const char* p, struct stat64* b) { return stat(p, (struct stat*) b); }
int lstat(const char* p, struct stat* b) { if (mine(p)) { St s; int r = do_stat(absol(p), false, &s); if (r < 0) return ret(r); tostat(s, b); return 0; } return (int) syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* b) { return lstat(p, (struct stat*) b); }
int __lxstat(int, const char* p, struct stat* b) { return lstat(p, b); }
int __lxstat64(int, const char* p, struct stat64* b) { return lstat(p, (struct stat*) b); }
int fstatat(int d, const char* p, struct stat* b, int fl) {
    if (fake(d) && (!p || !*p)) return fstat(d, b);
    bool is = false; std::string q = at(d, p, &is);
    if (is) { St s; int r = do_stat(absol(q.c_str()), !(fl & AT_SYMLINK_NOFOLLOW), &s); if (r < 0) return ret(r); tostat(s, b); return 0; }
    return (int) syscall(SYS_newfstatat, d, p, b, fl);
}
int fstatat64(int d, const char* p, struct stat64* b, int fl) { return fstatat(d, p, (struct stat*) b, fl); }
int statx(int d, const char* p, int fl, unsigned int mask, struct statx* x) {
    bool is = false; std::string q = at(d, p, &is);
    if (is) {
        St s; int r = do_stat(absol(q.c_str()), !(fl & AT_SYMLINK_NOFOLLOW), &s);
        if (r < 0) return ret(r);
        memset(x, 0, sizeof *x);
        x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.mode; x->stx_size = s.size; x->stx_ino = s.ino; x->stx_nlink = s.nlink; x->stx_blksize = 4096; x->stx_mtime.tv_sec = s.mtime;
        return 0;
    }
    return (int) syscall(SYS_statx, d, p, fl, mask, x);
}
int access(const char* p, int m) { if (mine(p)) return ret(do_access(absol(p))); return (int) syscall(SYS_access, p, m); }
int euidaccess(const char* p, int m) { return access(p, m); }
int eaccess(const char* p, int m) { return access(p, m); }
int faccessat(int d, const char* p, int m, int fl) { bool is = false; std::string q = at(d, p, &is); if (is) return ret(do_access(absol(q.c_str()))); return (int) syscall(SYS_faccessat, d, p, m, fl); }
static char* rpath(const char* p, char* out) {
    std::string r;
    int e = do_realpath(absol(p), r);
    if (e < 0) { errno = -e; return nullptr; }
    if (r.size() >= PATH_MAX) { errno = ENAMETOOLONG; return nullptr; }
    if (!out) out = (char*) malloc(r.size() + 1);
    memcpy(out, r.c_str(), r.size() + 1);
    return out;
}
char* realpath(const char* p, char* out) { if (mine(p)) return rpath(p, out); static auto f = real<char* (*)(const char*, char*)>("realpath"); return f(p, out); }
char* __realpath_chk(const char* p, char* out, size_t) { return realpath(p, out); }
char* canonicalize_file_name(const char* p) { return realpath(p, nullptr); }
int mkdir(const char* p, mode_t) { if (mine(p)) return ret(do_mkdir(absol(p))); return escape("mkdir", p); }
int mkdirat(int d, const char* p, mode_t) { bool is = false; std::string q = at(d, p, &is); if (is) return ret(do_mkdir(absol(q.c_str()))); return escape("mkdir", p); }
int rmdir(const char* p) { if (mine(p)) return ret(do_rmdir(absol(p))); return escape("rmdir", p); }
int unlink(const char* p) { if (mine(p)) return ret(do_unlink(absol(p))); return escape("unlink", p); }
int unlinkat(int d, const char* p, int fl) { bool is = false; std::string q = at(d, p, &is); q = is ? absol(q.c_str()) : q; if (is) return ret((fl & AT_REMOVEDIR) ? do_rmdir(q) : do_unlink(q)); return escape("unlinkat", p); }
int remove(const char* p) {
    if (!mine(p)) return escape("remove", p);
    std::string q = absol(p);
    int r = do_unlink(q);
    if (r == -EISDIR) r = do_rmdir(q);
    return ret(r);
}
int rename(const char* a, const char* b) { if (mine(a) && mine(b)) return ret(do_rename(absol(a), absol(b))); return escape("rename", a); }
int renameat(int d1, const char* a, int d2, const char* b) { bool i1, i2; std::string x = at(d1, a, &i1), y = at(d2, b, &i2); if (i1 && i2) return ret(do_rename(absol(x.c_str()), absol(y.c_str()))); return escape("rename", a); }
int renameat2(int d1, const char* a, int d2, const char* b, unsigned) { return renameat(d1, a, d2, b); }
int symlink(const char* t, const char* p) { if (mine(p)) { if (check(LINK, p) > 0) return ret(-EIO); mklink(absol(p), t); return 0; } return escape("symlink", p); }
int link(const char* a, const char* p) { (void) a; if (mine(p)) { errno = EPERM; return -1; } return escape("link", p); }
ssize_t readlink(const char* p, char* b, size_t n) {
    if (mine(p)) { int i = lookup(absol(p), false); if (i < 0) return rets(i); if (disk.ino[i].t != Inode::LNK) return rets(-EINVAL); size_t m = std::min(n, disk.ino[i].data.size()); memcpy(b, disk.ino[i].data.data(), m); return m; }
    return syscall(SYS_readlink, p, b, n);
}
ssize_t __readlink_chk(const char* p, char* b, size_t n, size_t) { return readlink(p, b, n); }
int chmod(const char* p, mode_t) { if (mine(p)) return 0; return escape("chmod", p); }
int chown(const char* p, uid_t, gid_t) { if (mine(p)) return 0; return escape("chown", p); }
int utime(const char* p, const struct utimbuf*) { if (mine(p)) return 0; return escape("utime", p); }
int chdir(const char* p) { if (mine(p)) { sim_cwd = absol(p); return 0; } return escape("chdir", p); }
char* getcwd(char* b, size_t n) {
    if (sim_relative) { if (!b) { n = n ? n : sim_cwd.size() + 1; b = (char*) malloc(n); } if (n < sim_cwd.size() + 1) { errno = ERANGE; return nullptr; } memcpy(b, sim_cwd.c_str(), sim_cwd.size() + 1); return b; }
    static auto f = real<char* (*)(char*, size_t)>("getcwd"); return f(b, n);
}
int statvfs(const char* p, struct statvfs* b) {
    if (mine(p)) { memset(b, 0, sizeof *b); b->f_bsize = b->f_frsize = 1; b->f_bavail = b->f_bfree = disk.capacity < 0 ? (1ull << 40) : (uint64_t) std::max<int64_t>(0, disk.capacity - used()); b->f_blocks = 1ull << 41; return 0; }
    static auto f = real<int (*)(const char*, struct statvfs*)>("statvfs"); return f(p, b);
}
int statvfs64(const char* p, struct statvfs64* b) { return statvfs(p, (struct statvfs*) b); }
int system(const char* c) { return escape("system", c); }

// stdio
struct Cookie { int fd; FILE* f; };
static ssize_t ck_read(void* c, char* b, size_t n) { return rets(do_read(((Cookie*) c)->fd, b, n)); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    // libc retries the rest of a short write itself and reports an error by a short count
    size_t t = 0;
    while (t < n) { ssize_t r = do_write(((Cookie*) c)->fd, b + t, n - t); if (r <= 0) { errno = r < 0 ? (int) -r : EIO; return (ssize_t) t; } t += r; }
    return (ssize_t) t;
}
static int ck_seek(void* c, off64_t* o, int w) { int64_t r = do_lseek(((Cookie*) c)->fd, *o, w); if (r < 0) { errno = (int) -r; return -1; } *o = r; return 0; }
static int ck_close(void* c) { Cookie* k = (Cookie*) c; files().erase(k->f); int r = do_close(k->fd); delete k; return ret(r); }
static FILE* ckopen(int fd, const char* m) {
    Cookie* c = new Cookie(); c->fd = fd;
    cookie_io_functions_t io; io.read = ck_read; io.write = ck_write; io.seek = ck_seek; io.close = ck_close;
    FILE* f = fopencookie(c, m, io);
    c->f = f;
    files()[f] = fd;
    return f;
}
static int mflags(const char* m) {
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    for (const char* c = m + 1; *c && *c != ','; c++) { if (*c == '+') fl = (fl & ~O_ACCMODE) | O_RDWR; if (*c == 'x') fl |= O_EXCL; }
    return fl;
}
FILE* fopen64(const char* p, const char* m) {
    if (mine(p)) { int fd = do_open(absol(p), mflags(m), 0666); if (fd < 0) { errno = -fd; return nullptr; } return ckopen(fd, m); }
    if (m[0] != 'r' || strchr(m, '+')) if (!write_ok_outside(p)) { escape("fopen-write", p); return nullptr; }
    static auto f = real<FILE* (*)(const char*, const char*)>("fopen64"); return f(p, m);
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
FILE* fdopen(int fd, const char* m) { if (fake(fd)) return ckopen(fd, m); static auto f = real<FILE* (*)(int, const char*)>("fdopen"); return f(fd, m); }
int fileno(FILE* f) { auto it = files().find(f); if (it != files().end()) return it->second; static auto r = real<int (*)(FILE*)>("fileno"); return r(f); }
int fileno_unlocked(FILE* f) { return fileno(f); }

// directories
DIR* opendir(const char* p) { if (mine(p)) { int e = 0; SimDir* d = do_opendir(absol(p), &e); if (!d) errno = e; return (DIR*) d; } static auto f = real<DIR* (*)(const char*)>("opendir"); return f(p); }
DIR* fdopendir(int fd) { if (fake(fd)) { Handle* h = H(fd); int e = EBADF; SimDir* d = h ? do_opendir(h->path, &e) : nullptr; if (!d) { errno = e; return nullptr; } d->fd = fd; return (DIR*) d; } static auto f = real<DIR* (*)(int)>("fdopendir"); return f(fd); }
struct dirent64* readdir64(DIR* dp) {
    if (isdir(dp)) {
        SimDir* d = (SimDir*) dp; std::string nm; unsigned char t; uint64_t ino;
        int r = nextent(d, nm, t, ino);
        if (r < 0) { errno = -r; return nullptr; }
        if (r == 0) return nullptr;
        memset(&d->de, 0, sizeof d->de);
        d->de.d_ino = ino; d->de.d_type = t; d->de.d_reclen = sizeof d->de; d->de.d_off = d->pos;
        snprintf(d->de.d_name, sizeof d->de.d_name, "%s", nm.c_str());
        return &d->de;
    }
    static auto f = real<struct dirent64* (*)(DIR*)>("readdir64"); return f(dp);
}
struct dirent* readdir(DIR* dp) { return (struct dirent*) readdir64(dp); }
int readdir_r(DIR* dp, struct dirent* e, struct dirent** res) {
    errno = 0;
    struct dirent* d = readdir(dp);
    if (!d) { *res = nullptr; return errno; }
    memcpy(e, d, sizeof *e); *res = e; return 0;
}
int closedir(DIR* dp) { if (isdir(dp)) { SimDir* d = (SimDir*) dp; dirs().erase(d); if (d->fd >= 0) do_close(d->fd); delete d; return 0; } static auto f = real<int (*)(DIR*)>("closedir"); return f(dp); }
void rewinddir(DIR* dp) { if (isdir(dp)) { ((SimDir*) dp)->pos = 0; return; } static auto f = real<void (*)(DIR*)>("rewinddir"); f(dp); }
int dirfd(DIR* dp) { if (isdir(dp)) { SimDir* d = (SimDir*) dp; if (d->fd < 0) d->fd = do_open(d->path, O_RDONLY | O_DIRECTORY, 0); return d->fd; } static auto f = real<int (*)(DIR*)>("dirfd"); return f(dp); }
int scandir64(const char* p, struct dirent64*** out, int (*sel)(const struct dirent64*), int (*cmp)(const struct dirent64**, const struct dirent64**)) {
    if (!mine(p)) { errno = ENOENT; return -1; }
    DIR* d = opendir(p);
    if (!d) return -1;
    std::vector<struct dirent64*> v; struct dirent64* e;
    errno = 0;
    while ((e = readdir64(d))) { if (sel && !sel(e)) continue; auto c = (struct dirent64*) malloc(sizeof *e); memcpy(c, e, sizeof *e); v.push_back(c); }
    int er = errno;
    closedir(d);
    if (er) { for (auto c : v) free(c); errno = er; return -1; }
    if (cmp) std::stable_sort(v.begin(), v.end(), [&](struct dirent64* a, struct dirent64* b) { return cmp((const struct dirent64**) &a, (const struct dirent64**) &b) < 0; });
    *out = (struct dirent64**) malloc(sizeof(void*) * (v.size() + 1));
    for (size_t i = 0; i < v.size(); i++) (*out)[i] = v[i];
    return (int) v.size();
}
int scandir(const char* p, struct dirent*** out, int (*sel)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
    return scandir64(p, (struct dirent64***) out, (int (*)(const struct dirent64*)) sel, (int (*)(const struct dirent64**, const struct dirent64**)) cmp);
}
int ioctl(int fd, unsigned long rq, ...) {
    va_list a; va_start(a, rq); void* p = va_arg(a, void*); va_end(a);
    if (fake(fd)) { Handle* h = H(fd); if (rq == FIONREAD && h) { *(int*) p = (int) std::max<int64_t>(0, (int64_t) disk.ino[h->ino].data.size() - h->off); return 0; } errno = ENOTTY; return -1; }
    return (int) syscall(SYS_ioctl, fd, rq, p);
}
int poll(struct pollfd* p, nfds_t n, int t) {
    if (n == 1 && fake(p[0].fd)) { p[0].revents = p[0].events; return 1; }
    return (int) syscall(SYS_poll, p, n, t);
}
int posix_fadvise(int, off_t, off_t, int) { return 0; }
int posix_fadvise64(int, off64_t, off64_t, int) { return 0; }
}  // extern "C"
namespace simfs {
void restore(const Disk& d) {
    disk = d;
    for (auto& h : fds()) h.used = false;
    std::set<int> live; live.insert(ROOT);
    for (auto& i : disk.ino) for (auto& e : i.second.ents) live.insert(e.second);
    for (auto it = disk.ino.begin(); it != disk.ino.end();) if (!live.count(it->first)) it = disk.ino.erase(it); else { it->second.nlink %= 1000; if (it->second.nlink < 1) it->second.nlink = 1; ++it; }
}
}
