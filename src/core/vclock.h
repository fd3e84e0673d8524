// The driver owns the clock: clock_gettime/gettimeofday/time are interposed and frozen unless advanced.
#pragma once
#include <cstdint>
namespace vclock {
void advanceMs(int64_t ms);
int64_t nowMs();      // virtual monotonic milliseconds
int64_t wallSecs();   // virtual unix time
double realSecs();    // real monotonic time
}
