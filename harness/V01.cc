// Acceptance and failure status for key sets of NKEYS keys.
#include "keys.h"
DEFINE_MODEL_JSON
#ifndef NKEYS
#define NKEYS 1
#endif
#ifndef KIDLEN
#define KIDLEN 2
#endif
#ifndef TYPES
#define TYPES 6
#endif
static Str label(size_t max, const char* name) { return sym_string(sym_choose("len", max + 1), name); }
extern "C" void sym_main() {
  keysValid();
  KeySpec k[NKEYS];
  pb::Struct* doc = addDoc("J");
  Token t;
#ifdef FEWALGS
  static const int few[5] = {0, 4, 8, 10, 12};
  t.alg = few[sym_choose("token_alg", 5)];
#else
  t.alg = sym_choose("token_alg", 13);
#endif
#ifdef SAMEFAM  // keys that can validate the token
  static const int ty[13] = {KRSA, KRSA, KRSA, KRSA, KRSA, KRSA, KEC256, KEC384, KEC521, KOCT, KOCT, KOCT, KOKP};
#endif
  for (int i = 0; i < NKEYS; i++) {
    k[i].idx = i;
#ifdef SAMEFAM
    k[i].type = sym_choose("usable", 2) ? ty[t.alg] : t.alg == 12 ? KOCT : KOKP;
#else
    k[i].type = sym_choose("type", TYPES);
#endif
    k[i].material();
    k[i].kid = label(KIDLEN, "kid");
#ifdef SAMEFAM
    static const int other[13] = {1, 2, 0, 4, 5, 3, 6, 7, 8, 10, 11, 9, 12};
    int lab = fits(k[i].type, t.alg) ? sym_choose("has_alg", 3) : 0;
    if (lab) k[i].alg = kAlg(lab == 1 ? t.alg : other[t.alg]);
#else
    if (sym_choose("has_alg", 2)) k[i].alg = sym_string(5, "alg");
#endif
    k[i].toJwk(addJwk(doc));
  }
  JwksPtr ks = Jwks::createFrom("J", Jwks::JWKS);
  if (ks->keys().size() != NKEYS) sym_end();
  t.kid = label(KIDLEN, "token_kid");
  // a signature of the length the alg requires (V04 sweeps the lengths)
  static const int sl[13] = {32, 32, 32, 32, 32, 32, 64, 96, 132, 32, 48, 64, 64};
  t.sig = sym_string(sl[t.alg], "sig");
#ifdef PADDED
  switch (sym_choose("spelling", 4)) {
    case 1: t.hsec = "SA=="; break;
    case 2: t.psec = "UA=="; break;
    case 3: t.hsec = t.psec = "SA"; t.psec = "UA"; break;
  }
#endif
  t.make();
#ifdef PRIOR  // history: another set, another signature or other sections
  {
    KeySpec pk;
    pk.idx = 7;
    static const int ty[13] = {KRSA, KRSA, KRSA, KRSA, KRSA, KRSA, KEC256, KEC384, KEC521, KOCT, KOCT, KOCT, KOKP};
    pk.type = ty[t.alg];
    pk.material();
    pk.kid = label(1, "prior_kid");
    pk.toJwk(addJwk(addDoc("K")));
    JwksPtr ps = Jwks::createFrom("K", Jwks::JWKS);
    Token p = t;
    p.jwt.signature_ = p.sig;  // copying parses again
    int how = sym_choose("prior", fits(k[0].type, t.alg) && mdBits(t.alg) && k[0].type != KEC256 && k[0].type != KEC384 && k[0].type != KEC521 ? 4 : 3);
    if (how == 1) p.sig = p.jwt.signature_ = sym_string(t.sig.size(), "prior_sig");
    unsigned char d = 0;
    for (size_t i = 0; i < p.sig.size(); i++) d |= (unsigned char)(p.sig[i] ^ t.sig[i]);
    sym_assume(how != 1 || d != 0);
    if (how == 2) { p.psec = "UA=="; p.jwt.payload_str_base64url_ = p.psec; }
    if (how == 3) {  // for another alg of the key's type
      static const int alt[13] = {2, 3, 1, 5, 3, 1, 6, 7, 8, 11, 9, 10, 12};
      p.alg = alt[t.alg];
      p.hsec = "SQ";
      p.sig = sym_string(sl[p.alg], "prior_sig");
      p.make("I");
    }
    bool other = sym_choose("prior_set", 2);
    bool pg = genuine(p, other ? pk : k[0]) & kidMatch(p, other ? pk : k[0]) & algMatch(p, other ? pk : k[0]);
    Status s = verifyJwtWithoutTimeChecking(p.jwt, other ? *ps : *ks);
    sym_assert(pg || s != Status::Ok, "the earlier token is accepted only if its key validates it");
    if (!other && how == 0) sym_end();  // the same question twice: V08
  }
#endif
  bool any = false, match = false;
  for (int i = 0; i < NKEYS; i++) {
    bool g = genuine(t, k[i]);
    bool m = kidMatch(t, k[i]) & algMatch(t, k[i]);
    any |= g & m;
    match |= m;
  }
  Status s = verifyJwtWithoutTimeChecking(t.jwt, *ks);
  if (s == Status::Ok) { sym_reach("accepted"); 
#ifndef EXACT
    sym_assert(any, "accepted only if a matching key of the right kind validates the exact bytes");
#endif
  }
  else {
    sym_reach("rejected");
#ifdef EXACT
    sym_assert(!any, "accepted if any matching key validates");
    if (s == Status::JwtVerificationFail) sym_assert(match, "verification failure only if some key matched");
    else if (s == Status::JwksKidAlgMismatch) { sym_reach("mismatch"); sym_assert(!match, "mismatch only if no key matched"); }
    else sym_fail("the failure is verification failure or mismatch");
#endif
  }
  sym_out("status", (uint64_t)s);
}
