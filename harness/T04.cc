// GetUInt64/GetDouble on every double, through the public lookup.
#include <cmath>
#include "jwt_verify_lib/struct_utils.h"
#include "sym.h"
using namespace google::jwt_verify;
extern "C" void sym_main() {
  google::protobuf::Struct s;
  double d = sym_double("v");
  (*s.mutable_fields())["n"].set_number_value(d);
  uint64_t out = 0xABCDEF0123456789ull;
  StructUtils u(s);
#ifdef PRIOR  // another number read before
  {
    google::protobuf::Struct o;
    (*o.mutable_fields())["n"].set_number_value(sym_double("before"));
    StructUtils w(o);
    uint64_t was;
    w.GetUInt64("n", &was);
  }
#endif
  StructUtils::FindResult r = u.GetUInt64("n", &out);
  uint64_t b;
  memcpy(&b, &d, 8);
  // the same decision on the bits of the double
  bool neg = b >> 63;
  int e = (int)(b >> 52 & 2047) - 1023;
  uint64_t m = (b & ((1ull << 52) - 1)) | 1ull << 52;
  bool zero = (b << 1) == 0, nan = e == 1024 && (b << 12) != 0;
  bool in = (!neg || zero) && e < 64 && !nan;
  if (r == StructUtils::OK) {
    sym_reach("accepted");
    sym_assert(in, "accepted only within [0, 2^64)");
    uint64_t want = e < 0 || zero ? 0 : e <= 52 ? m >> (52 - e) : m << (e - 52);
    sym_assert(out == want, "the value is the number with its fraction dropped");
  } else {
    sym_reach("refused");
    sym_assert(r == StructUtils::OUT_OF_RANGE, "a number is refused only as out of range");
    sym_assert(!in, "every number within [0, 2^64) is accepted");
    sym_assert(out == 0xABCDEF0123456789ull, "a refused number leaves the destination unchanged");
  }
  double back = 1;
  sym_assert(u.GetDouble("n", &back) == StructUtils::OK, "a number is a double");
  uint64_t bb;
  memcpy(&bb, &back, 8);
  sym_assert(bb == b, "GetDouble returns the number unchanged");
}
