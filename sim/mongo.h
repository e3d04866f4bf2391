// Simulated MongoDB deployment: an in-process server behind libmongoc's stream initiator seam.
// The driver (libmongoc, libbson) is real; sockets, the network and the server are simulated.
#ifndef SIM_MONGO_H
#define SIM_MONGO_H
#include <bson/bson.h>
#include <mongoc/mongoc.h>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace simdb {
void init();                                     // once per process, before any client exists

typedef std::vector<uint8_t> Raw;                // one BSON document
struct Coll { std::vector<Raw> docs; std::vector<Raw> indexes; };
struct Server {
    std::map<std::string, std::map<std::string, Coll> > dbs;   // db -> collection -> documents, insertion order
};
extern Server server;

enum Kind {
    NONE = 0,
    REFUSE,        // connection refused (connect only)
    CONN_HANG,     // connection attempt times out
    DROP_REQ,      // connection lost before the request is processed
    DROP_REPLY,    // request processed, connection lost before the reply
    PART_REPLY,    // request processed, reply cut in the middle
    HANG_REQ,      // request never arrives, client times out
    HANG_REPLY,    // request processed, reply never arrives
    ERR,           // server answers ok:0
    WRITE_ERR,     // write not performed, writeErrors in the reply
    WC_ERR,        // write performed, write concern error in the reply
    PARTIAL,       // multi-document write stops half way, then ok:0
    RESTART,       // server restarts before processing: every connection and cursor is lost
    DELAY,         // late reply (within the client's timeouts)
    NKINDS
};
const char* kind_name(int k);
struct Rule {
    int kind = NONE;
    std::string cmd;        // "" any command, "connect", "read", "write" or a command name
    std::string coll;       // "" any, else suffix of the collection name ("files", "chunks")
    int nth = 0;            // counting matching messages from arming, 0-based
    int count = 1;          // consecutive matching messages hit; -1 for ever
    uint32_t arg = 0;
    int hits = 0, seen = 0;
};
void arm(const std::vector<Rule>& rules);
void disarm();                                   // faults stop
Rule draw_rule(const std::vector<int>& kinds, int span);
uint64_t fault_count();
uint64_t error_replies();        // faults that were error replies
uint64_t delayed_ms();           // time added by late replies
uint64_t messages();                             // requests processed so far
void kill_client_after(int n);                   // the n-th message from now and all later ones never leave the client
void cut_client();                               // from now on
bool client_dead();
void revive();                                   // a new client process may connect
extern bool yield_points;                        // message exchanges are scheduling points
extern std::function<void()> on_message;         // another process acting before the next request is processed
int64_t bson_blocks();                           // outstanding blocks of libbson / libmongoc
int open_streams();
void trace_blocks();            // debugging aid: first call starts, later calls print blocks still alive
int open_cursors();

// ---- state helpers for oracles --------------------------------------------
struct File {
    std::string name;
    Raw doc;                 // files document
    Raw id;                  // value of _id, as a one-field document
    Raw meta;                // metadata sub-document, empty if none
    bool has_meta = false;
    int64_t length = -1; int32_t chunk_size = 0;
    std::string data;        // chunks joined in order
    bool complete = false;   // all chunks there and of the right sizes
    int chunks = 0;
};
std::vector<File> files(const std::string& db, const std::string& gfs);
int orphan_chunks(const std::string& db, const std::string& gfs);
std::string raw_json(const Raw& r);
std::string put_file(const std::string& db, const std::string& gfs, const std::string& name, const std::string& data,
                     const bson_t* meta, int32_t chunk_size = 255 * 1024, const bson_value_t* id = nullptr);   // stored by another client
Coll& coll(const std::string& db, const std::string& name);     // created if absent
}
#endif
