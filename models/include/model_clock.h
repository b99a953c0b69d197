#pragma once
#include <stdint.h>
extern int64_t model_now_us;          // chrono clocks, microseconds
extern int model_clock_reads;
extern void (*model_clock_hook)();    // called before each chrono reading
extern int64_t model_unix_now;        // absl::Now(), whole seconds since the epoch
extern uint32_t model_unix_nanos;      // and the fraction of a second
extern int model_wall_reads;
extern void (*model_wall_hook)();
