// Virtual threads: OpenMP workers and caller threads are coroutines scheduled from the tape.
#ifndef SIM_THR_H
#define SIM_THR_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace simthr {
enum Policy { RUN_TO_BLOCK = 0, SYNC_POINTS = 1, ACCESSES = 2 };
extern int default_threads;      // OpenMP threads of a team (omp_set_num_threads overrides)
extern int nprocs;               // what omp_get_num_procs / sysconf report
extern int policy;
extern uint32_t burst;           // mean accesses between pre-emptions (policy ACCESSES)
extern bool races;               // check happens-before of instrumented accesses (race variant only)
extern bool dynamic_teams;       // a team may get fewer threads than asked for
extern uint64_t switches, preemptions, teams, accesses, sched_hash;
void configure_from_tape();      // swarm: thread count, policy, burst
void spawn(std::function<void()> f, const char* name);
void join_all();                 // run the spawned threads to completion
int self();
int live();
bool yield();                    // scheduling point; true if another thread ran
void race_write(const void* p, size_t n, const char* what);   // unsynchronised write by library code (static buffers)
void race_read(const void* p, size_t n, const char* what);
void mem_reused(const void* p, size_t n);                     // allocation or release of this range
}
#endif
