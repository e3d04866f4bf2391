// Simulated in-memory disk behind libc's file interface. Paths under /sim only.
#ifndef SIM_FS_H
#define SIM_FS_H
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace simfs {

enum Op : uint32_t {
    OPEN_R = 1, OPEN_W = 2, READ = 4, WRITE = 8, CLOSE = 16, SEEK = 32, STAT = 64, UNLINK = 128, MKDIR = 256,
    RMDIR = 512, OPENDIR = 1024, READDIR = 2048, RENAME = 4096, TRUNC = 8192, REALPATH = 16384, ACCESS = 32768,
    FSYNC = 65536, LINK = 131072
};
const char* op_name(uint32_t op);

struct Rule {
    uint32_t ops = 0;      // which operations
    int nth = 0;           // fires at the nth matching operation after arming (0 = first)
    int err = 5;           // errno; -1: partial (short) transfer without error
    int partial = 0;       // for writes: this many permille of the bytes are transferred before the error
    bool sticky = false;   // all later matching operations fail as well
    std::string under;     // only paths starting with this (empty: all)
    int seen = 0; int fired = 0;
};

struct Inode {
    enum T { REG, DIR, LNK, FIFO } t = REG;
    std::string data;      // file content or link target
    std::vector<std::pair<std::string, int>> ents;  // directory entries in listing order
    int nlink = 1;
    int64_t mtime = 0;
    uint32_t mode = 0644;
};
struct Disk {
    std::map<int, Inode> ino;
    int next = 2;
    int64_t capacity = -1; // bytes for all regular files, -1 unlimited
};

extern Disk disk;
extern std::vector<Rule> rules;
extern bool armed;               // rules apply
extern bool dtype_unknown;       // readdir reports DT_UNKNOWN
extern bool shuffle_listing;     // listing order drawn from the tape
extern bool yield_points;        // every operation is a scheduling point
extern bool sim_relative;        // relative paths live under sim_cwd
extern std::string sim_cwd;
extern std::vector<std::string> escapes;   // destructive calls on paths outside /sim (refused)
extern std::vector<std::string> removals;  // every entry removed (absolute sim path), in order
extern uint64_t op_count, mut_count, fault_count;
extern uint64_t op_bound;         // give the run up after this many operations (0: none)
extern std::function<void(uint32_t op, const std::string& path)> on_op;  // before each operation

// crash: snapshot taken when the mut_count-th mutation happens (torn: permille of the bytes of that write applied)
extern int64_t crash_at;
extern int crash_torn;
extern bool crash_taken;
extern Disk crash_disk;
extern std::string crash_what;

void reset();                    // empty disk with /sim
void disarm();
void arm(const std::vector<Rule>& r);
// helpers for workloads (never subject to faults)
bool exists(const std::string& p);
bool is_dir(const std::string& p);
bool is_file(const std::string& p);
bool get(const std::string& p, std::string& data);
void put(const std::string& p, const std::string& data);
void mkdirs(const std::string& p);
void mklink(const std::string& p, const std::string& target);
void mkfifo(const std::string& p);
bool rm(const std::string& p);   // recursive
std::vector<std::string> list_all();     // all paths, sorted, with type marks
uint64_t digest();
int open_handles();
int lookup(const std::string& p, bool follow = true);
std::string real(const std::string& p);  // resolved name, or of the missing last component; "" if neither
}  // namespace simfs
#endif
namespace simfs { void restore(const Disk& d); }
