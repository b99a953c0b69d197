// One usable key, every signature length up to twice the right one.
#include "keys.h"
DEFINE_MODEL_JSON
extern "C" void sym_main() {
  keysValid();
  Token t;
#ifdef ALGS
  static const int algs[] = {ALGS};
  t.alg = algs[sym_choose("token_alg", sizeof algs / sizeof *algs)];
#else
  t.alg = sym_choose("token_alg", 13);
#endif
  static const int ty[13] = {KRSA, KRSA, KRSA, KRSA, KRSA, KRSA, KEC256, KEC384, KEC521, KOCT, KOCT, KOCT, KOKP};
  KeySpec k;
  k.type = ty[t.alg];
  k.material();
  if (sym_choose("labelled", 2)) k.alg = kAlg(t.alg);
  k.toJwk(addJwk(addDoc("J")));
  JwksPtr ks = Jwks::createFrom("J", Jwks::JWKS);
  int want = k.type == KRSA ? kRsaLen : sigLen(k.type, t.alg);
  size_t len = sym_choose("sig_len", 2 * want + 3);
  t.sig = sym_string(len, "sig");
  t.make();
#ifdef PRIOR  // a signature of the right length judged before
  {
    Token p = t;
    p.sig = sym_string(want, "prior_sig");
    p.jwt.signature_ = p.sig;
    if ((int)len == want) {
      unsigned char d = 0;
      for (int i = 0; i < want; i++) d |= (unsigned char)(p.sig[i] ^ t.sig[i]);
      sym_assume(d != 0);
    }
    genuine(p, k);
    verifyJwtWithoutTimeChecking(p.jwt, *ks);
  }
#endif
  bool g = genuine(t, k);
  Status s = verifyJwtWithoutTimeChecking(t.jwt, *ks);
  if (s == Status::Ok) { sym_reach("accepted"); sym_assert(g, "accepted only at the exact length with a signature the key validates"); }
  else {
    sym_reach("rejected");
    if ((int)len == want) sym_assert(!g, "a genuine signature of the right length is accepted");
    if (k.type == KOKP && len != 64) { sym_reach("ed25519_length"); sym_assert(s == Status::JwtEd25519SignatureWrongLength, "an Ed25519 signature of wrong length is reported as such"); }
    else sym_assert(s == Status::JwtVerificationFail, "a bad signature is a verification failure");
  }
}
