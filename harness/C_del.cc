// The deleter a cache was given, with its state, destroys every value once; the
// plain cache deletes its values.
#include "model_clock.h"
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
#include "sym.h"
using namespace google::simple_lru_cache;
static int plain;
struct Obj { ~Obj() { plain++; } uint64_t x[2] = {1, 2}; };
static int byTag[4];
struct Tagged {
  int tag = 1;
  int calls = 0;
  Tagged() {}
  explicit Tagged(int t) : tag(t) {}
  void operator()(Obj* o) { byTag[tag]++; calls++; delete o; }
};
template <class C>
static void use(C& c, int n) {
  for (int i = 0; i < n; i++) {
    switch (sym_choose("how", 3)) {
      case 0: c.insert(i, new Obj, 1); break;
      case 1: { Obj* o = new Obj; c.insertPinned(i, o, 1); c.remove(i); c.release(i, o); break; }
      case 2: c.insert(i, new Obj, 1); c.remove(i); break;
    }
  }
  c.clear();
}
extern "C" void sym_main() {
  sym_heap_mark();
  model_now_us = 5;
  const int n = 3;
  switch (sym_choose("kind", 3)) {
    case 0: {
      SimpleLRUCache<uint64_t, Obj> c(2);
      use(c, n);
      sym_reach("plain");
      sym_assert(plain == n, "a plain cache deletes every value once");
      break;
    }
    case 1: {
      SimpleLRUCacheWithDeleter<uint64_t, Obj, Tagged> c(2);
      use(c, n);
      sym_reach("default");
      sym_assert(plain == n && byTag[1] == n, "every value is destroyed once by a default deleter");
      break;
    }
    case 2: {
      SimpleLRUCacheWithDeleter<uint64_t, Obj, Tagged> c(2, Tagged(3));
      use(c, n);
      sym_reach("given");
      sym_assert(plain == n && byTag[3] == n && byTag[1] == 0, "every value is destroyed once by the deleter given");
      break;
    }
  }
  sym_check_leaks("nothing is leaked");
}
