// Simulation runtime: choice tape, event log, outcome reporting.
#ifndef SIM_RT_H
#define SIM_RT_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <initializer_list>

namespace sim {

// ---- choices -------------------------------------------------------------
// Every decision of a run is a draw. 0 is always the simplest alternative; draws beyond the end
// of a replayed tape return 0.
uint32_t draw(uint32_t n);                       // 0..n-1
inline bool flip(uint32_t num, uint32_t den) { return draw(den) >= den - num; }  // 0 -> false
inline int range(int lo, int hi) { return lo + (int) draw((uint32_t) (hi - lo + 1)); }
uint32_t weighted(std::initializer_list<uint32_t> w);  // index; first alternative is the simplest
uint32_t skewed(uint32_t n);                     // 0..n-1, small values more likely
template <class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t) v.size())]; }

// ---- log and reports -----------------------------------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ctx(const char* label);                     // what is running now; part of crash classes
const char* get_ctx();
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void give_up(const char* why);      // end the run without a verdict (a library below the code under test does not terminate)
void fault_fired(const char* kind);
void probe(const char* name);                    // rare condition reached
void mark_nontrivial();
uint64_t loghash();
void step(uint64_t n = 1);                       // simulated events; bounded per run
void set_step_limit(uint64_t n);
void add_simtime(uint64_t ns);
bool verbose();
uint8_t fill_byte();

struct Ctx {                                     // scoped context label
    std::string prev;
    explicit Ctx(const char* l) : prev(get_ctx()) { ctx(l); }
    ~Ctx() { ctx(prev.c_str()); }
};

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

}  // namespace sim

// ---- to be provided by each property ---------------------------------------
extern const char* const kPropertyId;
extern const char* const kRule;                  // how cases are made, what is non-trivial
extern const char* const kRealComponents;
extern const char* const kStubComponents;
void prop_init();                                // once per process, before any run
void prop_run();                                 // one simulated run (in a forked child)
#endif
