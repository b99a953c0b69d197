// Native replay of a path found by jsym: sym_* return the values recorded in
// the file named by SYM_INPUT, in call order.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <vector>
namespace {
struct In { std::string name; unsigned width; unsigned long long v; };
std::vector<In>* ins;
size_t pos;
std::vector<std::pair<std::string, unsigned long long>>* outs;
size_t outPos;
long mark, live_;
void load() {
  if (ins) return;
  ins = new std::vector<In>;
  outs = new std::vector<std::pair<std::string, unsigned long long>>;
  const char* f = getenv("SYM_INPUT");
  std::ifstream is(f ? f : "/dev/null");
  std::string line;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::string k;
    ls >> k;
    if (k == "in") { In i; ls >> i.name >> i.width >> i.v; ins->push_back(i); }
    else if (k == "out") { std::string n; unsigned long long v; ls >> n >> v; outs->push_back({n, v}); }
  }
}
unsigned long long next(const char* name, unsigned w) {
  load();
#ifdef SYM_THREADS
  if (pos >= ins->size()) return 0;  // the recording ends where the race was found
#endif
  if (pos >= ins->size()) {
    printf("REPLAY-DIVERGED: no recorded value for %s\n", name);
    fflush(stdout);
    _Exit(78);
  }
  In& i = (*ins)[pos++];
#ifdef SYM_THREADS
  if (i.name != name || i.width != w) return 0;
#endif
  if (i.name != name || i.width != w) {
    printf("REPLAY-DIVERGED: expected input %s:%u, harness asked for %s:%u\n", i.name.c_str(), i.width, name, w);
    fflush(stdout);
    _Exit(78);
  }
  return i.v;
}
}  // namespace
extern "C" {
uint8_t sym_u8(const char* n) { return (uint8_t)next(n, 8); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n, 16); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n, 32); }
uint64_t sym_u64(const char* n) { return next(n, 64); }
uint64_t sym_double_bits(const char* n) { return next(n, 64); }
bool sym_bool(const char* n) { return next(n, 1) & 1; }
uint64_t sym_range(const char* n, uint64_t lo, uint64_t hi) {
  uint64_t v = next(n, 64);
  if (v < lo || v > hi) { printf("REPLAY-DIVERGED: %s out of range\n", n); fflush(stdout); _Exit(78); }
  return v;
}
uint64_t sym_choose(const char* n, uint64_t k) { return next(n, 16); }
void sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(name, 8); }
void sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _Exit(77); } }
void sym_assert(bool c, const char* l) {
  if (!c) { printf("REPLAY-VIOLATION: %s\n", l); fflush(stdout); _Exit(42); }
}
void sym_fail(const char* l) { printf("REPLAY-VIOLATION: %s\n", l); fflush(stdout); _Exit(42); }
void sym_reach(const char* l) { printf("reach %s\n", l); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_out(const char* n, uint64_t v) {
  load();
  printf("out %s %llu\n", n, (unsigned long long)v);
  if (outPos < outs->size()) {
    auto& o = (*outs)[outPos++];
    if (o.first != n || o.second != v) {
      printf("REPLAY-MISMATCH: %s symbolic=%llu native=%llu\n", n, o.second, (unsigned long long)v);
      fflush(stdout);
      _Exit(79);
    }
  }
}
// Heap accounting (replaces the executor's object table).
void sym_heap_mark() { mark = live_; }
uint64_t sym_live() { return live_ - mark; }
void sym_check_leaks(const char* l) {
  if (live_ != mark) { printf("REPLAY-VIOLATION: %s: %ld leaked allocations\n", l, live_ - mark); fflush(stdout); _Exit(42); }
}
int sym_symbolic() { return 0; }
void sym_shared(int) {}
void sym_end() { printf("REPLAY-END\n"); fflush(stdout); _Exit(0); }
void sym_main();
}
#include <new>
// counted operator new/delete on top of malloc (ASan still sees the blocks)
static const size_t kPad = 0;
#ifndef SYM_THREADS
void* operator new(size_t n) { live_++; void* p = malloc(n ? n : 1); if (getenv("SYM_FILL")) memset(p, atoi(getenv("SYM_FILL")), n); return p; }
void* operator new[](size_t n) { live_++; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) { live_--; free(p); } }
void operator delete[](void* p) noexcept { if (p) { live_--; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { live_--; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { live_--; free(p); } }
#endif
#ifdef SYM_THREADS
// One after the other, but without anything that orders the two for the race
// detector (this file is not instrumented).
#include <pthread.h>
#include <unistd.h>
static void (*job)(void*);
static void* arg;
static volatile int turn;
static size_t from;  // both threads meet the same values
static void* first(void*) { while (turn != 1) usleep(100); job(arg); turn = 2; while (turn != 3) usleep(100); return nullptr; }
static void* second(void*) { while (turn != 2) usleep(100); pos = from; job(arg); turn = 3; return nullptr; }
void sym_in_threads(void (*f)(void*), void* p) {
  pthread_t a, b;
  job = f; arg = p; turn = 0; from = pos;
  pthread_create(&a, nullptr, first, nullptr);
  pthread_create(&b, nullptr, second, nullptr);
  turn = 1;
  pthread_join(a, nullptr);
  pthread_join(b, nullptr);
}
#else
void sym_in_threads(void (*f)(void*), void* p) { f(p); }
#endif
int main() {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  load();
  mark = live_;
  sym_main();
  printf("REPLAY-END\n");
  fflush(stdout);
  _Exit(0);
}
