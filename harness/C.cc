// Histories of cache operations against a reference model.
//   PROP   which property's assertions count (1..11); a history that leaves the
//          reference in a way another property owns is not followed further
//   OPS    allowed operations, DEPTH their number (or SHAPE: those of each step),
//   PRE    values inserted before
//   OVER   the cache also counts as overfull with more than OVER entries
//   TWIN   another cache with values of the same keys is in use meanwhile
//   MANY   NK keys with fixed values, inserted first and some of them pinned;
//          operations on a few of them
//   KEYREF keys refer to memory of the values they are inserted with
#include <algorithm>
#include <vector>
#include "model_clock.h"
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
#include "sym.h"
using namespace google::simple_lru_cache;
extern "C" int model_map_reverse;
enum { INS = 1, INSP = 2, LOOK = 4, LOOKN = 8, REL = 16, REM = 32, REMALL = 64, REMUNP = 128, MAXS = 256, UPD = 512, CLR = 1024, EXP = 2048, IDLE = 4096, AGE = 8192, TOUCH = 16384, TOUCHN = 32768, NOW = 65536 };
#ifndef PROP
#define PROP 2
#endif
#ifndef OPS
#define OPS (INS | INSP | LOOK | REL | REM)
#endif
#ifdef SHAPE  // the operations allowed at each step
static const int kShape[] = {SHAPE};
#define DEPTH (int)(sizeof kShape / sizeof *kShape)
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef NK
#define NK 2
#endif
#ifndef TBITS
#define TBITS 32  // bits of the time between two operations, in microseconds
#endif
#ifndef MODE
#define MODE 0  // 0 LRU, 1 age-based from the start
#endif
static const int kMax = PRE + DEPTH + 1;
#ifdef KEYREF
struct Val { int id; uint64_t key; };
struct Key {
  const uint64_t* p = nullptr;
  bool operator==(const Key& o) const { return *p == *o.p; }
  bool operator!=(const Key& o) const { return *p != *o.p; }
};
struct KeyHash { size_t operator()(const Key& k) const { return *k.p % 1024; } };
template <class V> using Lru = SimpleLRUCache<Key, V, KeyHash>;
template <class V, class D> using LruDel = SimpleLRUCacheWithDeleter<Key, V, D, KeyHash>;
#else
struct Val { int id; };
typedef uint64_t Key;
template <class V> using Lru = SimpleLRUCache<Key, V>;
template <class V, class D> using LruDel = SimpleLRUCacheWithDeleter<Key, V, D>;
#endif
enum { IN, DEF, DEAD };
struct Pins {  // options of the outstanding pins
  bool a[16]; int n = 0;
  bool empty() const { return n == 0; }
  size_t size() const { return n; }
  bool operator[](size_t i) const { return a[i]; }
  void push_back(bool b) { a[n++] = b; }
  void erase(size_t i) { for (n--; (int)i < n; i++) a[i] = a[i + 1]; }
};
struct V { int key = 0; uint64_t units = 0; int state = IN; Pins pins; int stamp = 0; int64_t time = 0; bool off = false, cut = false; Val* ptr = nullptr; int destroyed = 0; };
static V vals[kMax];
static int nv, seq;
static Key keys[NK + 1];
static uint64_t keyBits[NK + 1];
static int64_t maxu, nowUs, maxIdle = -1;
static bool lru = true;
static bool strict() {
#ifdef STRICT
  return true;
#else
  return false;
#endif
}
static void died(Val* v) {
  V& x = vals[v->id];
  if (x.destroyed++) sym_fail("a value is destroyed once only");
  if (!x.pins.empty()) sym_fail("a pinned value is not destroyed");
  delete v;
}
#ifdef DELETER
struct Del { void operator()(Val* v) { died(v); } };
struct Cache : LruDel<Val, Del> { explicit Cache(int64_t n) : LruDel<Val, Del>(n) {} };
#else
struct Seen { const Val* v; int pin; int64_t time; bool deferred; };
static std::vector<Seen>* reported;
struct Cache : Lru<Val> {
  explicit Cache(int64_t n) : Lru<Val>(n) {}
  void removeElement(Val* v) override { died(v); }
#ifdef OVER
  bool isOverfull() const override { return size() > maxSize() || entries() > OVER; }
#endif
  void debugIterator(const Val* v, int pin, int64_t time, bool deferred, std::string* out) const override {
    if (!reported) return Lru<Val>::debugIterator(v, pin, time, deferred, out);
#ifdef MANY
    Lru<Val>::debugIterator(v, pin, time, deferred, out);  // a long report
#endif
    reported->push_back(Seen{v, pin, time, deferred});
  }
};
#endif
static Cache* cache;
#ifdef TWIN
struct Twin : Lru<Val> {
  explicit Twin(int64_t n) : Lru<Val>(n) {}
  int gone = 0;
  void removeElement(Val*) override { gone++; }
};
static Twin* twin;
static Val twinVals[2];
#endif
static void check(int prop, bool c, const char* what) {
  if (prop == PROP || PROP == 9) sym_assert(c, what);
  else if (!c) sym_end();
}
// ---- reference
static int64_t total() { int64_t s = 0; for (int i = 0; i < nv; i++) if (vals[i].state != DEAD) s += vals[i].units; return s; }
static bool overfull() {
#ifdef OVER
  int n = 0;
  for (int i = 0; i < nv; i++) n += vals[i].state == IN;
  if (n > OVER) return true;
#endif
  return total() > maxu;
}
static V* cur(int k) { for (int i = 0; i < nv; i++) if (vals[i].key == k && vals[i].state == IN) return &vals[i]; return nullptr; }
static void gone(V& v) { v.state = v.pins.empty() ? DEAD : DEF; }
static void gc() {
  for (;;) {
    V* o = nullptr;
    for (int i = 0; i < nv; i++) { V& v = vals[i]; if (v.state == IN && v.pins.empty() && (!o || v.stamp < o->stamp)) o = &v; }
    if (!o) return;
    if (!overfull()) return;
    sym_reach("evicted");
    o->state = DEAD;
  }
}
static void expire() {
  if (maxIdle < 0) return;
  for (int i = 0; i < nv; i++) {
    V& v = vals[i];
    if (v.state != IN || (lru && !v.pins.empty())) continue;
    if (v.time < nowUs - maxIdle) {
      if (v.off && !v.pins.empty()) sym_end();
      sym_reach("expired");
      gone(v);
    }
  }
}
static V& add(int k, uint64_t units) {
  if (V* o = cur(k)) gone(*o);
  V& v = vals[nv];
  v.key = k; v.units = units; v.stamp = ++seq; v.time = nowUs;
#ifdef KEYREF
  v.ptr = new Val{nv, keyBits[k]};
#else
  v.ptr = new Val{nv};
#endif
  v.pins.push_back(true);
  v.off = lru;
  nv++;
  gc();
  return v;
}
static void unpin(V& v, size_t which) {
  bool upd = v.pins[which];
  v.pins.erase(which);
  if (v.state == DEF) { if (v.pins.empty()) v.state = DEAD; return; }
  if (lru && upd) { v.time = nowUs; v.stamp = ++seq; }
  if (v.pins.empty()) {
    v.off = false;
    if (overfull()) v.state = DEAD;
  }
}
// ---- comparison
#if PROP == 11
static int numbers(const std::string& text, int64_t* out, int max) {
  int n = 0;
  for (size_t i = 0; i < text.size(); i++) {
    if (text[i] < '0' || text[i] > '9') continue;
    bool neg = i > 0 && text[i - 1] == '-';
    int64_t v = 0;
    for (; i < text.size() && text[i] >= '0' && text[i] <= '9'; i++) v = v * 10 + (text[i] - '0');
    if (n < max) out[n] = neg ? -v : v;
    n++;
  }
  return n;
}
static void report() {
  int64_t s = 0, p = 0, d = 0, de = 0, n = 0;
  for (int i = 0; i < nv; i++) {
    V& v = vals[i];
    if (v.state == DEAD) continue;
    s += v.units;
    if (v.state == DEF) { d += v.units; de++; continue; }
    n++;
    if (!v.pins.empty()) p += v.units;
  }
  int64_t got[4];
  sym_reach("reported");
  if (de) sym_reach("deferred");
  sym_assert(numbers(cache->summary(), got, 4) == 3 && got[0] == p && got[1] == d && got[2] == s, "the summary gives the pinned, the deferred and the total size");
  std::vector<Seen> seen;
  reported = &seen;
  std::string out = "7 ";
  cache->debugOutput(&out);
  reported = nullptr;
  int64_t h[6];
  sym_assert(out.compare(0, 2, "7 ") == 0, "the debug output is appended");
  int cnt = numbers(out, h, 6);
#ifdef MANY
  cnt = 5;
#endif
  sym_assert(cnt == 5 && h[1] == n && h[2] == de && h[3] == s && h[4] == maxu, "the debug output gives the entries, deferred entries, size and capacity");
  sym_assert((int64_t)seen.size() == n + de, "the debug output names every live value once");
  for (int i = 0; i < nv; i++) {
    V& v = vals[i];
    if (v.state == DEAD) continue;
    const Seen* r = nullptr;
    for (auto& x : seen) if (x.v == v.ptr) r = &x;
    if (!r) sym_fail("the debug output names every live value once");
    sym_assert(r->pin == (int)v.pins.size(), "the debug output gives a value's pins");
    sym_assert(r->deferred == (v.state == DEF), "the debug output tells whether a value awaits its last release");
    sym_assert(v.state == DEF || r->time == v.time, "the debug output gives a value's last use");
  }
  if (!nv) return;
  std::string line;
  reported = nullptr;
  cache->Cache::debugIterator(vals[0].ptr, 3, 1234, true, &line);
  int64_t w[32];
  int k = numbers(line, w, 32);
  sym_assert(k >= 3 && k <= 32 && w[k - 3] == 3 && w[k - 2] == 1 && w[k - 1] == 1234, "a line of the debug output gives pins, state and time");
}
#endif
static void same(const char* removed, int owner) {
  for (int i = 0; i < nv; i++) {
    V& v = vals[i];
    bool md = v.state == DEAD, rd = v.destroyed != 0;
    if (md == rd) continue;
    // Diverged: what the property says of it in itself, else it is another's.
    if (PROP == 1 && rd && v.state == IN) sym_fail("a value neither removed, replaced, evicted nor expired is found");
    if (PROP == 7 && rd && v.state == IN && owner != 6 && owner != 5) sym_fail("a value not named stays");
    if (PROP == 3) {
      int64_t live = 0;
      for (int j = 0; j < nv; j++) if (!vals[j].destroyed) live += vals[j].units;
      sym_assert(cache->size() == live, "the size is the sum of the units of the live values");
    }
    if (PROP == owner || PROP == 9) sym_fail(removed);
    if (PROP == 2 && md && owner == 2) sym_fail(removed);
    sym_end();
  }
  if (PROP == 3 || PROP == 9) {
    int64_t s = 0, p = 0, d = 0, de = 0, n = 0;
    for (int i = 0; i < nv; i++) {
      V& v = vals[i];
      if (v.state == DEAD) continue;
      s += v.units;
      if (v.state == DEF) { d += v.units; de++; continue; }
      n++;
      if (!v.pins.empty()) p += v.units;
    }
    sym_assert(cache->size() == s, "the size is the sum of the units of the live values");
    sym_assert(cache->pinnedSize() == p, "the pinned size is that of the pinned values in the cache");
    sym_assert(cache->deferredSize() == d, "the deferred size is that of the removed values still pinned");
    sym_assert(cache->deferredEntries() == de, "the deferred entries are the removed values still pinned");
    sym_assert(cache->entries() == n, "the entries are the keys present");
    sym_assert(cache->maxSize() == maxu, "the maximum size is the one set");
  }
#if PROP == 11
  report();
#endif
  if (PROP == 8 || PROP == 9 || PROP == 5 || PROP == 7)
    for (int k = 0; k < NK; k++) {
      V* v = cur(k);
      int64_t t = lru ? cache->getLastUseTime(keys[k]) : cache->getInsertionTime(keys[k]);
      sym_assert(t == (v ? v->time : -1), "the reported time is that of the last use or insertion, -1 for an absent key");
    }
}
static void meanwhile(bool last) {
#ifdef TWIN
  const char* w = "another cache is not affected";
  SimpleLRUCacheOptions o;
  o.set_update_eviction_order(false);
  Val* v = twin->lookupWithOptions(keys[0], o);
  sym_assert(v == &twinVals[0], w);
  twin->releaseWithOptions(keys[0], v, o);
  sym_assert(twin->size() == 7 && twin->pinnedSize() == 5 && twin->entries() == 2 && twin->deferredEntries() == 0 && twin->maxSize() == 8 && twin->gone == 0, w);
  if (last) { twin->release(keys[1], &twinVals[1]); twin->clear(); sym_assert(twin->gone == 2, w); delete twin; }
#endif
}
static Val* look(int k, bool upd) {
  expire();
  V* v = cur(k);
  Val* want = v ? v->ptr : nullptr;
  if (v) {
    v->pins.push_back(upd);
    if (lru && upd) v->off = true;
  }
  SimpleLRUCacheOptions o;
  o.set_update_eviction_order(upd);
  Val* got = upd ? cache->lookup(keys[k]) : cache->lookupWithOptions(keys[k], o);
  const char* w = "a lookup returns the last value inserted under the key, unless removed, evicted or expired";
  if (PROP == 1 && got && !want && cur(k) == nullptr) {
    // found though evicted or expired: another property's, if it is the last one inserted
    for (int i = nv - 1; i >= 0; i--) if (vals[i].key == k) { if (vals[i].ptr == got && !vals[i].cut) sym_end(); break; }
  }
  if (PROP == 1 || PROP == 5 || PROP == 6 || PROP == 7 || PROP == 9) sym_assert(got == want, w);
  else if (got != want) sym_end();
  if (got) sym_reach("found");
  return got;
}
static void rel(V& v, size_t which) {
  bool upd = v.pins[which];
  unpin(v, which);
  SimpleLRUCacheOptions o;
  o.set_update_eviction_order(upd);
  if (upd) cache->release(keys[v.key], v.ptr); else cache->releaseWithOptions(keys[v.key], v.ptr, o);
  if (v.state == DEAD) sym_reach("released_dead");
}
static bool ready;  // the values to start with are in
static uint64_t units() {
#ifdef MANY
  return ready ? sym_u64("units") & (PROP == 11 ? 7 : 2047) : 1 + nv % 3;
#elif defined UNITS
  return sym_u64("units") & ((1ull << UNITS) - 1);
#else
  return 1;
#endif
}
static int64_t capacity() {
#ifdef MANY
  return ready ? (int64_t)(sym_u64("capacity") & 127) - 2 : 1000;
#elif defined UNITS
  return (int64_t)(sym_u64("capacity") & ((1ull << (UNITS + 2)) - 1)) - (1ull << (UNITS - 1));
#else
  return CAP;
#endif
}
static bool few(int i) {
#ifdef MANY
  return i < 2 || i == 4 || i >= NK - 1;
#else
  return true;
#endif
}
static void tick(bool any = true) {
#ifdef MANY
  any = any && ready;
#endif
#ifdef TIMES
  if (!any) { nowUs += 1; model_now_us = nowUs; return; }
  nowUs += (int64_t)(sym_u32("elapsed") >> (32 - TBITS)) + (strict() ? 1 : 0);
#else
  nowUs += 1;
#endif
  model_now_us = nowUs;
}
static void timeout(bool l) {
  int64_t lim = -1;
  double sec = -1;
#ifdef TIMES
  // the time elapsed is any, so few limits are enough; C_limit.cc has all of them
  switch (sym_choose("limit", 3)) {
    case 1: sec = 0; lim = 0; break;
#if TBITS < 16
    case 2: sec = 0.001953125; lim = 1953; break;
#else
    case 2: sec = 1800.25; lim = 1800250000; break;
#endif
  }
#endif
  if (maxIdle >= 0 && lim >= 0 && l != lru) sym_end();  // not allowed by the interface
  lru = l;
  maxIdle = lim;
  expire();
  if (l) cache->setMaxIdleSeconds(sec); else cache->setAgeBasedEviction(sec);
}
static int usedKeys() { int m = 0; for (int i = 0; i < nv; i++) m = std::max(m, vals[i].key + 1); return std::min(m + 1, NK); }
static void insert(int k, bool pinned) {
  uint64_t u = units();
  V& v = add(k, u);
  if (!pinned) unpin(v, 0);
  Val* p = v.ptr;
#ifdef KEYREF
  Key key{&p->key};
#else
  Key key = keys[k];
#endif
  if (pinned) cache->insertPinned(key, p, u); else cache->insert(key, p, u);
}
struct Op { int op, a, b; };
static void step(int allowed) {
  tick();
  Op ops[64];
  int n = 0;
  auto put = [&](int op, int a = 0, int b = 0) { if (allowed & op) ops[n++] = Op{op, a, b}; };
  bool anypin = false, many = nv > 0;
  for (int i = 0; i < nv; i++) anypin |= !vals[i].pins.empty();
  for (int k = 0; k < usedKeys(); k++) {
    if (!few(k)) continue;
    put(INS, k); put(INSP, k);
    if (many) { put(LOOK, k); put(LOOKN, k); put(TOUCH, k); put(TOUCHN, k); put(REM, k); }
  }
  for (int i = 0; i < nv; i++) {
    V& v = vals[i];
    if (v.state == DEAD || !few(i)) continue;
    for (size_t p = 0; p < v.pins.size(); p++) {
      bool dup = false;
      for (size_t q = 0; q < p; q++) dup |= v.pins[q] == v.pins[p];
      if (!dup) put(REL, i, p);
    }
    put(UPD, i, 1);
  }
  if (many) { for (int k = 0; k < NK; k++) if (few(k) && cur(k)) put(UPD, k, 0); put(UPD, NK, 0); }
  if (many) { put(REMALL); put(REMUNP); put(EXP); if (!anypin) put(CLR); put(NOW); }
  put(MAXS); put(IDLE); put(AGE);
  if (!n) sym_end();
  Op o = ops[sym_choose("op", n)];
  meanwhile(false);
  switch (o.op) {
    case INS: insert(o.a, false); same("an insertion evicts least recently used values until the cache fits, and no more", lru ? 4 : 5); break;
    case INSP: insert(o.a, true); same("an insertion evicts least recently used values until the cache fits, and no more", lru ? 4 : 5); break;
    case LOOK: look(o.a, true); same("a lookup removes exactly the expired values", lru ? 6 : 5); break;
    case LOOKN: look(o.a, false); same("a lookup removes exactly the expired values", lru ? 6 : 5); break;
    case TOUCH: case TOUCHN: {
      bool upd = o.op == TOUCH;
#ifdef SCOPED
      SimpleLRUCacheOptions opt;
      opt.set_update_eviction_order(upd);
      expire();
      V* v = cur(o.a);
      if (v) v->pins.push_back(upd);
      {
        Cache::ScopedLookup s(cache, keys[o.a], opt);
        if (PROP == 10) {
          sym_assert(s.found() == (v != nullptr) && s.value() == (v ? v->ptr : nullptr), "a scoped lookup finds the value of its key");
          sym_assert(s.key() == keys[o.a], "a scoped lookup knows its key");
        } else if (s.value() != (v ? v->ptr : nullptr)) sym_end();
        int64_t p = 0;
        for (int i = 0; i < nv; i++) if (vals[i].state == IN && !vals[i].pins.empty()) p += vals[i].units;
        if (PROP == 10) sym_assert(cache->pinnedSize() == p, "a scoped lookup holds a pin while it lives");
        if (v) unpin(*v, v->pins.size() - 1);
      }
      int64_t p = 0;
      for (int i = 0; i < nv; i++) if (vals[i].state == IN && !vals[i].pins.empty()) p += vals[i].units;
      if (PROP == 10) { sym_assert(cache->pinnedSize() == p, "a scoped lookup gives its pin back"); if (v) sym_reach("scoped"); }
#else
      if (look(o.a, upd)) { V& v = *cur(o.a); rel(v, v.pins.size() - 1); }
#endif
      same("an access removes exactly the expired values", lru ? 6 : 5);
      break;
    }
    case REL: rel(vals[o.a], o.b); same("a value is destroyed at its last release exactly if it was removed or the cache is overfull", 2); break;
    case REM: if (V* v = cur(o.a)) { v->cut = true; gone(*v); } cache->remove(keys[o.a]); same("removing a key destroys exactly its value, once unpinned", PROP == 2 ? 2 : 7); break;
    case REMALL: for (int i = 0; i < nv; i++) if (vals[i].state == IN) { vals[i].cut = true; gone(vals[i]); } cache->removeAll(); same("removing all destroys exactly the unpinned values", PROP == 2 ? 2 : 7); break;
    case REMUNP: for (int i = 0; i < nv; i++) if (vals[i].state == IN && vals[i].pins.empty()) { vals[i].cut = true; vals[i].state = DEAD; } cache->removeUnpinned(); same("removing the unpinned values destroys exactly those", PROP == 2 ? 2 : 7); break;
    case CLR: for (int i = 0; i < nv; i++) { vals[i].cut = true; vals[i].state = DEAD; } cache->clear(); same("clearing destroys all values", PROP == 2 ? 2 : 7);
      if (PROP == 7) sym_assert(cache->size() == 0 && cache->pinnedSize() == 0 && cache->entries() == 0 && cache->deferredEntries() == 0, "a cleared cache is as new");
      break;
    case EXP: expire(); cache->removeExpiredEntries(); same("expiry removes exactly the expired values", lru ? 6 : 5); break;
    case MAXS: maxu = capacity(); gc(); cache->setMaxSize(maxu); same("a new capacity evicts least recently used values until the cache fits, and no more", lru ? 4 : 5); break;
    case UPD: {
      uint64_t u = units();
      if (o.b) {  // by value
        V& v = vals[o.a];
        v.units = u;
        gc();
        cache->updateSize(keys[v.key], v.ptr, u);
      } else {    // by key: the value present, else those still pinned
        V* v = o.a < NK ? cur(o.a) : nullptr;
        int k = o.a < NK ? o.a : 0;
        if (o.a == NK) { if (cur(0)) sym_end(); for (int i = 0; i < nv; i++) if (vals[i].key == 0 && vals[i].state == DEF) vals[i].units = u; }
        else v->units = u;
        gc();
        cache->updateSize(keys[k], nullptr, u);
      }
      sym_reach("resized");
      same("a resized value evicts least recently used values until the cache fits, and no more", lru ? 4 : 5);
      break;
    }
    case IDLE: timeout(true); same("setting a limit removes exactly the expired values", 6); break;
    case AGE: timeout(false); same("setting a limit removes exactly the expired values", 5); break;
    case NOW: {
      V* o = nullptr;  // the oldest value in the eviction order
      for (int i = 0; i < nv; i++) { V& v = vals[i]; if (v.state == IN && !v.off && (!o || v.stamp < o->stamp)) o = &v; }
      int64_t age = cache->ageOfLRUItemInMicroseconds();
      if (PROP == 8) { sym_reach("age"); sym_assert(age == (o ? nowUs - o->time : 0), "the reported age is that of the oldest value in the eviction order"); }
      break;
    }
  }
}
extern "C" void sym_main() {
  for (int k = 0; k <= NK; k++) {
#ifdef MANY
    keyBits[k] = 1000 + 7 * k;
#else
    keyBits[k] = sym_u64("key");
#endif
    for (int j = 0; j < k; j++) sym_assume(keyBits[j] != keyBits[k]);
#ifdef KEYREF
    keys[k].p = &keyBits[k];
#else
    keys[k] = keyBits[k];
#endif
  }
#ifdef TIMES
  nowUs = (int64_t)(sym_u64("start") & ((1ull << 52) - 1));
#else
  nowUs = 1000;
#endif
  model_now_us = nowUs;
#ifdef REVERSE
  model_map_reverse = sym_choose("reverse", 2);
#endif
  sym_heap_mark();
  maxu = capacity();
  cache = new Cache(maxu);
#ifdef TWIN
  twin = new Twin(8);
  twin->insert(keys[0], &twinVals[0], 2);
  twin->insertPinned(keys[1], &twinVals[1], 5);
#endif
  if (MODE == 1) { lru = false; cache->setAgeBasedEviction(-1); }
  for (int i = 0; i < PRE; i++) { tick(); insert(i % NK, false); same("an insertion evicts least recently used values until the cache fits, and no more", lru ? 4 : 5); }
#ifdef MANY
  {
    int which = sym_choose("pinned", 4), upd = sym_choose("pinned_with_update", 2);
    for (int i = 0; i < PRE; i++)
      if (which == 1 ? i % 3 == 0 : which == 2 ? i != 4 : which == 3 && i < 3) { tick(); look(i, upd); same("a lookup removes exactly the expired values", lru ? 6 : 5); }
    ready = true;
  }
#endif
#ifdef SHAPE
  for (int m : kShape) step(m);
#else
  for (int i = 0; i < DEPTH; i++) step(OPS);
#endif
#ifdef MANY
  ready = false;
#endif
  if (PROP == 7) {  // whatever was removed, the limits stand and the cache works on
    tick();
    insert(0, false);
    same("an insertion evicts least recently used values until the cache fits, and no more", lru ? 4 : 5);
  }
  if (PROP == 10) {
    int n = 0;
    bool seen[kMax] = {};
    for (auto it = cache->begin(); it != cache->end(); ++it) {
      sym_reach("iterated");
      V* v = nullptr;
      for (int k = 0; k < NK; k++) if (it->first == keys[k]) v = cur(k);
      if (!v) sym_fail("iteration visits only keys present");
      sym_assert(it->second == v->ptr && (*it).second == v->ptr, "iteration gives the current value");
      sym_assert((lru ? it.last_use_time() : it.insertion_time()) == v->time, "iteration gives the value's time");
      if (seen[v - vals]) sym_fail("iteration visits a key once");
      seen[v - vals] = true;
      n++;
    }
    int want = 0;
    for (int i = 0; i < nv; i++) want += vals[i].state == IN;
    sym_assert(n == want, "iteration visits every key present");
    for (int k = 0; k < NK; k++) {
      bool any = false;
      for (int i = 0; i < nv; i++) any |= vals[i].key == k && vals[i].state != DEAD;
      sym_assert(cache->stillInUse(keys[k]) == any, "a key is in use while a value of it is present or pinned");
      for (int i = 0; i < nv; i++)
        if (vals[i].state != DEAD) sym_assert(cache->stillInUse(keys[k], vals[i].ptr) == (vals[i].key == k), "a value is in use under its key while present or pinned");
    }
    Val other{};
    sym_assert(!cache->stillInUse(keys[0], &other), "a value never inserted is not in use");
  }
  if (PROP == 1 || PROP == 9 || PROP == 7) {
    for (int k = 0; k < NK + 1; k++) {
      tick();
      bool upd = PROP != 9;
      if (look(k, upd)) rel(*cur(k), cur(k)->pins.size() - 1);
      same("an access removes exactly the expired values", lru ? 6 : 5);
    }
  }
  // every pin is released and the cache cleared
  for (int i = 0; i < nv; i++)
    while (!vals[i].pins.empty()) {
      tick();
      rel(vals[i], vals[i].pins.size() - 1);
      same("a value is destroyed at its last release exactly if it was removed or the cache is overfull", 2);
    }
  meanwhile(true);
  cache->clear();
  for (int i = 0; i < nv; i++) if (PROP == 2 || PROP == 9) sym_assert(vals[i].destroyed == 1, "every value is destroyed by the time the cache is cleared");
  delete cache;
  if (PROP == 2 || PROP == 9) sym_check_leaks("nothing is leaked");
}
