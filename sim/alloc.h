#ifndef SIM_ALLOC_H
#define SIM_ALLOC_H
#include <cstddef>
#include <cstdint>
namespace simalloc {
extern bool counting;            // account array allocations made by the code under test
extern int64_t fail_nth;         // fail the nth nothrow new[] from now (-1: never)
extern bool fail_sticky;
extern bool fail_throwing;       // throwing new[] counts and fails (bad_alloc) as well
extern size_t limit;             // requests above this size fail
extern uint64_t made, failed;
int64_t live_arrays();           // outstanding new[] blocks made while counting
size_t live_bytes();
void start();                    // forget previous accounting, start counting
void stop();
}
#endif
