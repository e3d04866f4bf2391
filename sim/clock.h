#ifndef SIM_CLOCK_H
#define SIM_CLOCK_H
#include <cstdint>
#include <functional>
namespace simclock {
extern bool enabled;
extern int64_t wall_ns;     // simulated wall clock (CLOCK_REALTIME), ns since epoch
extern int64_t mono_ns;     // simulated monotonic clock
extern uint64_t reads, sleeps;
extern std::function<void()> on_read;   // after each clock read (may advance or jump the clock)
void tick(uint64_t ns);
void jump(int64_t ns);      // wall clock only
int64_t peek_s();
}
#endif
