// Any time-out (every double), any two instants of the clock: whether one cached
// value has expired, and what the cache says of its age.
#include <cmath>
#include "model_clock.h"
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
#include "sym.h"
using namespace google::simple_lru_cache;
static int destroyed;
struct Cache : SimpleLRUCache<uint64_t, int> {
  Cache() : SimpleLRUCache<uint64_t, int>(10) {}
  void removeElement(int*) override { destroyed++; }
};
extern "C" void sym_main() {
  static int value = 7;
  // up to 2^53 microseconds, 285 years: the clock's nanoseconds end at 292
  const uint64_t kHalf = (1ull << 52) - 1;
  int64_t t0 = (int64_t)(sym_u64("inserted") & kHalf), t1 = t0 + (int64_t)(sym_u64("later") & kHalf);
  Cache* c = new Cache;
#ifdef AGE
  model_now_us = t0;
  bool lru = sym_choose("lru", 2);
  if (!lru) c->setAgeBasedEviction(-1);
  c->insert(1, &value, 1);
  model_now_us = t1;
  sym_reach("age");
  sym_assert(c->ageOfLRUItemInMicroseconds() == t1 - t0, "the age of the oldest value is the time since its last use or insertion");
  sym_assert((lru ? c->getLastUseTime(1) : c->getInsertionTime(1)) == t0, "the time reported is that of the last use or insertion");
  c->remove(1);
  sym_assert(c->ageOfLRUItemInMicroseconds() == 0, "an empty cache has age zero");
  sym_assert((lru ? c->getLastUseTime(1) : c->getInsertionTime(1)) == -1, "an absent key has no time");
#else
  double seconds;
  uint64_t bits = sym_u64("seconds");
  memcpy(&seconds, &bits, 8);
  bool lru = sym_choose("lru", 2), before = sym_choose("before", 2);
  auto set = [&] { if (lru) c->setMaxIdleSeconds(seconds); else c->setAgeBasedEviction(seconds); };
  model_now_us = t0;
  if (!lru && !before) c->setAgeBasedEviction(-1);
  if (before) set();
  c->insert(1, &value, 1);
  model_now_us = t1;
  if (!before) set();
  else if (lru) c->removeExpiredEntries();
  int64_t limit = -1;
  if (seconds >= 0 && !std::isinf(seconds)) {
    double us = seconds * 1000000;
    limit = us >= 9223372036854775808.0 ? INT64_MAX : (int64_t)us;
  }
  bool gone = limit >= 0 && t1 - t0 > limit;
  int* p = c->lookup(1);
  if (gone) sym_reach("expired"); else sym_reach("kept");
  if (limit < 0) sym_reach("nolimit");
  if (limit == INT64_MAX) sym_reach("boundary");
  sym_assert((p == nullptr) == gone, "a value is expired exactly when its age exceeds the time-out");
  sym_assert(destroyed == (gone ? 1 : 0), "an expired value is destroyed once");
  if (p) c->release(1, p);
#endif
  c->clear();
  sym_assert(destroyed == 1, "the value is destroyed once");
  delete c;
}
