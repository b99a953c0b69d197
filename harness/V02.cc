// Large key sets, any of whose keys may be the right one, or none.
#include "keys.h"
DEFINE_MODEL_JSON
#ifndef NKEYS
#define NKEYS 20
#endif
extern "C" void sym_main() {
  keysValid();
  Token t;
  static const int few[8] = {0, 4, 6, 7, 8, 10, 12, 12};
  static const int ty[13] = {KRSA, KRSA, KRSA, KRSA, KRSA, KRSA, KEC256, KEC384, KEC521, KOCT, KOCT, KOCT, KOKP};
#ifdef BIG
  t.alg = few[sym_choose("token_alg", 2) ? 4 : 6];
#else
  t.alg = few[sym_choose("token_alg", 7)];
#endif
  KeySpec* k = new KeySpec[NKEYS];
  pb::Struct* doc = addDoc("J");
  int names = sym_choose("names", 3);          // nobody, keys and token, keys only
#ifdef BIG
  int pattern = 2 * sym_choose("pattern", 2);
#elif defined(EACH)
  int pattern = 0;
#else
  int pattern = sym_choose("pattern", 4);
#endif
  for (int i = 0; i < NKEYS; i++) {
    k[i].idx = i;
    k[i].type = ty[t.alg];
    if (names) k[i].kid = "k";
#ifdef EACH
    int how = sym_choose("how", 4);
#else
    // all match; every fourth does; only the last does; none does
    int how = pattern == 0 ? 0 : pattern == 1 ? i % 4 : pattern == 2 ? (i < NKEYS - 1) : 3;
#endif
    if (how == 1) k[i].type = t.alg == 12 ? KOCT : KOKP;       // of another kind
    if (how == 2 && names == 1) k[i].kid = "x";                // under another name
    if (how == 3) k[i].alg = kAlg(t.alg == 2 ? 1 : t.alg == 12 ? 12 : (t.alg + 1) % 12);  // for another alg, if loadable
    k[i].material();
    k[i].toJwk(addJwk(doc));
  }
  JwksPtr ks = Jwks::createFrom("J", Jwks::JWKS);
  if (names == 1) t.kid = "k";
  static const int sl[13] = {32, 32, 32, 32, 32, 32, 64, 96, 132, 32, 48, 64, 64};
  t.sig = sym_string(sl[t.alg], "sig");
  t.make();
#ifdef PRIOR  // another token judged before by the same set
  {
    Token p = t;
    p.hsec = "SQ";
    p.sig = sym_string(t.sig.size(), "prior_sig");
    int pk = sym_choose("prior_kid", 3);
    if (pk) p.kid = pk == 1 ? "x" : "k";
    static const int other[13] = {2, 0, 1, 5, 3, 4, 6, 7, 8, 11, 9, 10, 12};
    if (sym_choose("prior_alg", 2)) { p.alg = other[t.alg]; p.sig = sym_string(sl[p.alg], "prior_sig"); }
    p.make("I");
    for (int i = 0; i < NKEYS; i++) if (k[i].type == ty[t.alg]) genuine(p, k[i]);
    verifyJwtWithoutTimeChecking(p.jwt, *ks);
  }
#endif
  bool any = false, match = false;
  size_t loaded = ks->keys().size(), seen = 0;
  for (int i = 0; i < NKEYS && seen < loaded; i++) {
    const Jwks::Pubkey& p = *ks->keys()[seen];
    if (p.alg_ != k[i].alg || p.kid_ != k[i].kid) continue;
    seen++;
    bool m = kidMatch(t, k[i]) && algMatch(t, k[i]);
    match |= m;
    bool g = genuine(t, k[i]);
    any |= g & m;
  }
  Status s = verifyJwtWithoutTimeChecking(t.jwt, *ks);
  sym_assert((s == Status::Ok) == any, "accepted exactly if the right key is there");
  if (s == Status::Ok) sym_reach("accepted");
  else { sym_reach(match ? "rejected" : "mismatch"); sym_assert(s == (match ? Status::JwtVerificationFail : Status::JwksKidAlgMismatch), "the status tells why"); }
}
