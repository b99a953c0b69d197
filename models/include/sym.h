// Harness API.  Under jsym these are intrinsics of the symbolic executor; natively
// (counterexample replay) they read the recorded values back (models/sym_native.cc).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
extern "C" {
uint8_t sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
uint64_t sym_double_bits(const char* name);
bool sym_bool(const char* name);
// any value of [lo, hi] (unsigned), kept symbolic
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi);
// any value of [0, n), one execution path per value
uint64_t sym_choose(const char* name, uint64_t n);
void sym_bytes(void* p, size_t n, const char* name);
void sym_assume(bool c);
void sym_assert(bool c, const char* label);
[[noreturn]] void sym_fail(const char* label);
void sym_reach(const char* label);
uint64_t sym_concretize(uint64_t v);
void sym_out(const char* name, uint64_t v);
void sym_heap_mark();
void sym_check_leaks(const char* label);
uint64_t sym_live();
int sym_symbolic();
// what exists now belongs to other threads too (0: no longer)
void sym_shared(int on);
[[noreturn]] void sym_end();
}
inline double sym_double(const char* name) {
  uint64_t b = sym_double_bits(name);
  double d;
  __builtin_memcpy(&d, &b, 8);
  return d;
}
inline std::string sym_string(size_t n, const char* name) {
  std::string s(n, '\0');
  if (n) sym_bytes(&s[0], n, name);
  return s;
}
// f as it runs while other threads run it on the same data: it may write only
// what it allocates itself, thread-local and atomic data, and under a lock.  The
// replay runs it in two threads under the race detector.
void sym_in_threads(void (*f)(void*), void* p);
template <class F>
void sym_isolated(F f) {
#ifdef SYM_THREADS
  sym_in_threads([](void* p) { (*(F*)p)(); }, &f);
#else
  sym_shared(1);
  f();
  sym_shared(0);
#endif
}
#ifdef ONLY_CRASH  // the harness runs for its memory errors and crashes only
#define sym_assert(c, label) ((void)(c))
#define sym_fail(label) sym_end()
#endif
