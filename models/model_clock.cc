// The process clocks.  Every reading is an arbitrary instant that is not earlier
// than the previous one; a harness may pin the next reading.
#include <chrono>
#include <sys/time.h>
#include <time.h>
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "model_clock.h"
int64_t model_now_us = 0;
int model_clock_reads = 0;
int64_t model_unix_now = 0;
uint32_t model_unix_nanos = 0;
int model_wall_reads = 0;
// A harness sets the one or the other (the second is 0 then); the calls that
// read the time of day agree on it, whichever of them the code uses.
static int64_t wallNs() { return model_unix_now * 1000000000 + model_unix_nanos; }
static int64_t wallSec() { return model_unix_now + model_now_us / 1000000; }
static int64_t wallSub() { return model_unix_nanos + model_now_us % 1000000 * 1000; }
static void wallRead() { model_wall_reads++; if (model_wall_hook) model_wall_hook(); }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  model_clock_reads++;
  if (model_clock_hook) model_clock_hook();
  return time_point(duration(model_now_us * 1000 + wallNs()));
}
steady_clock::time_point steady_clock::now() noexcept {
  model_clock_reads++;
  if (model_clock_hook) model_clock_hook();
  return time_point(duration(model_now_us * 1000));
}
}}}
void (*model_clock_hook)() = nullptr;
namespace absl {
ABSL_NAMESPACE_BEGIN
Time Now() { wallRead(); return time_internal::FromUnixDuration(time_internal::MakeDuration(wallSec(), (uint32_t)wallSub() * 4)); }
int64_t GetCurrentTimeNanos() { wallRead(); return model_now_us * 1000 + wallNs(); }
ABSL_NAMESPACE_END
}
void (*model_wall_hook)() = nullptr;
extern "C" {
time_t time(time_t* t) noexcept { wallRead(); if (t) *t = wallSec(); return wallSec(); }
int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept { wallRead(); t->tv_sec = wallSec(); t->tv_usec = wallSub() / 1000; return 0; }
int clock_gettime(clockid_t, struct timespec* t) noexcept { wallRead(); t->tv_sec = wallSec(); t->tv_nsec = wallSub(); return 0; }
}
