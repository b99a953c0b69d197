// Every full-verification entry point against the three checks it is made of.
#include "keys.h"
#include "model_clock.h"
DEFINE_MODEL_JSON
#ifdef TWICE
enum { CALLS = 2, NC = 2, NT = 2, NA = 2 };
#else
enum { CALLS = 1, NC = 3, NT = 3, NA = 3 };
#endif
static void once(Jwt& j, const Jwks& ks, bool g, bool match) {
  j.audiences_.clear();
  j.nbf_ = sym_u64("nbf");
  j.exp_ = sym_u64("exp");
  // audiences: none configured, the token's, another; token with none, one, two
  static const char* const A[3] = {"a", "b", "https://a/"};
  std::vector<Str> conf;
  int entry = sym_choose("entry", 5);
  int nc = entry >= 3 ? sym_choose("configured", NC) : 0, nt = entry >= 3 ? sym_choose("token_auds", NT) : 0;
  bool allowed = nc == 0;
  if (entry < 3) allowed = true;
  for (int i = 0; i < nt; i++) j.audiences_.push_back(A[sym_choose("ta", NA)]);
  for (int i = 0; i < nc; i++) {
    int c = sym_choose("ca", NA);
    conf.push_back(A[c]);
    for (auto& a : j.audiences_) allowed |= (a == "b") == (c == 1);
  }
  uint64_t now = sym_u64("now"), skew = 60;
  // the process clock, to the year 2242 (its nanoseconds end in 2262)
  uint64_t clock = sym_u64("clock") & ((1ull << 33) - 1);
  model_unix_now = (int64_t)clock;
  model_unix_nanos = sym_u32("nanos") & ((1u << 29) - 1);
  Status s;
  bool aud = false;
  switch (entry) {
    case 0: s = verifyJwt(j, ks); now = clock; sym_reach("clock"); break;
    case 1: s = verifyJwt(j, ks, now); break;
    case 2: skew = sym_u64("skew"); s = verifyJwt(j, ks, now, skew); break;
    case 3: s = verifyJwt(j, ks, conf); now = clock; aud = true; break;
    default: s = verifyJwt(j, ks, conf, now); aud = true; break;
  }
  bool early = now < j.nbf_ && j.nbf_ - now > skew, late = j.exp_ != 0 && now > j.exp_ && now - j.exp_ > skew;
  if (aud && !allowed) { sym_reach("audience"); sym_assert(s == Status::JwtAudienceNotAllowed, "a disallowed audience is reported first"); }
  else if (s == Status::JwtNotYetValid) { sym_reach("early"); sym_assert(early, "not-yet-valid only before the window"); }
  else if (s == Status::JwtExpired) { sym_reach("late"); sym_assert(late & !early, "expired only after the window"); }
  else {
    sym_assert(!early & !late, "a token outside its time window is rejected before its signature is judged");
    if (s == Status::Ok) { sym_reach("ok"); sym_assert(g & match, "accepted only with a genuine signature"); }
    else if (s == Status::JwksKidAlgMismatch) { sym_reach("mismatch"); sym_assert(!match, "mismatch only without a matching key"); }
    else if (s == Status::JwtVerificationFail) { sym_reach("bad"); sym_assert(match & !g, "signature failure only for a signature that is not genuine"); }
    else sym_fail("the status is that of one of the checks");
  }
}
extern "C" void sym_main() {
  keysValid();
  KeySpec k;
  k.type = sym_choose("type", 2) ? KOCT : KRSA;
  k.material();
  k.kid = "k";
  k.toJwk(addJwk(addDoc("J")));
  JwksPtr ks = Jwks::createFrom("J", Jwks::JWKS);
  Token t;
  t.alg = k.type == KRSA ? 0 : 9;
  t.kid = sym_string(1, "kid");
  t.sig = sym_string(32, "sig");
  t.make();
  Jwt& j = t.jwt;
  bool g = genuine(t, k);
  bool match = t.kid == k.kid;
  for (int i = 0; i < CALLS; i++) once(j, *ks, g, match);
}
