#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/verify.h"
#include "sym.h"
using namespace google::jwt_verify;
extern "C" void sym_main() {
  Jwt jwt;
#ifdef PRIOR  // an earlier check, of other claims
  jwt.nbf_ = sym_u64("prior_nbf");
  jwt.exp_ = sym_u64("prior_exp");
  uint64_t was = sym_u64("prior_now");
  if (sym_choose("prior_skew", 2)) jwt.verifyTimeConstraint(was, sym_u64("prior_skew"));
  else jwt.verifyTimeConstraint(was);
#endif
  jwt.nbf_ = sym_u64("nbf");
  jwt.exp_ = sym_u64("exp");
  uint64_t now = sym_u64("now");
  bool dflt = sym_choose("default_skew", 2);
  uint64_t skew = dflt ? 60 : sym_u64("skew");
  Status s = dflt ? jwt.verifyTimeConstraint(now) : jwt.verifyTimeConstraint(now, skew);
  unsigned __int128 n = now, k = skew;
  bool early = jwt.nbf_ != 0 && n + k < jwt.nbf_;
  bool late = jwt.exp_ != 0 && n > (unsigned __int128)jwt.exp_ + k;
  if (s == Status::JwtNotYetValid) { sym_reach("early"); sym_assert(early, "JwtNotYetValid only before nbf - skew"); }
  else if (s == Status::JwtExpired) { sym_reach("late"); sym_assert(late, "JwtExpired only after exp + skew"); sym_assert(!early, "not-yet-valid is reported first"); }
  else { sym_reach("ok"); sym_assert(s == Status::Ok, "status is one of the three"); sym_assert(!early, "token used before nbf - skew is rejected"); sym_assert(!late, "token used after exp + skew is rejected"); }
  sym_out("status", (uint64_t)s);
}
