// Status texts, and the first-failure rule of objects that record statuses.
#include "jwt_verify_lib/status.h"
#include "sym.h"
using namespace google::jwt_verify;
typedef std::string Str;
struct Rec : WithStatus {
  void up(Status s) { updateStatus(s); }
  void re(Status s) { resetStatus(s); }
};
static const uint64_t kLast = (uint64_t)Status::JwksBioAllocError;
extern "C" void sym_main() {
#ifdef RECORD
  Rec r;
  sym_assert(r.getStatus() == Status::Ok, "a new object is Ok");
  uint64_t first = 0;
  for (int i = 0; i < 4; i++) {
    uint64_t s = sym_range("status", 0, kLast);
    if (sym_choose("reset", 2)) { r.re((Status)s); first = s; sym_reach("reset"); }
    else { r.up((Status)s); first = first ? first : s; }
    sym_assert((uint64_t)r.getStatus() == first, "the first failure since the last reset is kept");
  }
#else
  uint64_t a = sym_range("a", 0, kLast), b = sym_range("b", 0, kLast);
  sym_assume(a <= b);
  Str ta = getStatusString((Status)a), tb = getStatusString((Status)b);
  sym_assert(!ta.empty() && !tb.empty(), "every status has a text");
  if (a == b) { sym_reach("same"); sym_assert(ta == tb, "the text of a status is stable"); }
  else { sym_reach("different"); sym_assert(ta != tb, "different statuses have different texts"); }
#endif
}
