// A cache of counted values.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unistd.h>
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
using namespace google::simple_lru_cache;
#define CHECK(c) do { if (!(c)) { printf("demo: %s does not hold (line %d)\n", #c, __LINE__); fflush(stdout); _exit(1); } } while (0)
struct Val { int id; };
static int destroyed[100];
struct Cache : SimpleLRUCache<int, Val> {
  explicit Cache(int64_t n) : SimpleLRUCache<int, Val>(n) {}
  void removeElement(Val* v) override { destroyed[v->id]++; }
};
static Val vals[100];
static inline Val* val(int i) { vals[i].id = i; return &vals[i]; }
// leave without running the cache's destructor
static inline void done() { fflush(stdout); _exit(0); }
