// Verification as a pure function; with FAULTS, under library failures.
#include "keys.h"
DEFINE_MODEL_JSON
#ifndef NKEYS
#define NKEYS 1
#endif
static Str dump(const Jwks& ks) {
  Str s;
  for (auto& k : ks.keys()) s += k->hmac_key_ + "|" + k->kid_ + "|" + k->kty_ + "|" + k->alg_ + "|" + k->crv_ + "|" + k->okp_key_raw_ + ";";
  return s + (char)('0' + (int)ks.getStatus());
}
static Str dump(const Jwt& j) {
  return j.jwt_ + "|" + j.header_str_ + "|" + j.header_str_base64url_ + "|" + j.payload_str_ + "|" + j.payload_str_base64url_ + "|" + j.alg_ + "|" + j.kid_ + "|" + j.iss_ + "|" + j.sub_ + "|" + j.jti_ + "|" + (char)('0' + j.audiences_.size());
}
static bool same(const Str& a, const Str& b) {
  if (a.size() != b.size()) return false;
  unsigned char d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
extern "C" void sym_main() {
  keysValid();
  Token t, u;
  t.alg = sym_choose("token_alg", 13);
  static const int ty[13] = {KRSA, KRSA, KRSA, KRSA, KRSA, KRSA, KEC256, KEC384, KEC521, KOCT, KOCT, KOCT, KOKP};
  KeySpec k[NKEYS];
  pb::Struct* doc = addDoc("J");
  for (int i = 0; i < NKEYS; i++) {
    k[i].idx = i;
    k[i].type = i ? (int)sym_choose("type", 6) : ty[t.alg];
    k[i].material();
    k[i].kid = "k";
    k[i].toJwk(addJwk(doc));
  }
  JwksPtr ks = Jwks::createFrom("J", Jwks::JWKS);
  static const int al[13] = {32, 32, 32, 32, 32, 32, 64, 96, 132, 32, 48, 64, 64};
  t.sig = sym_string(sym_choose("short", 2) ? 3 : al[t.alg], "sig");
  if (sym_choose("named", 2)) t.kid = sym_choose("other", 2) ? "x" : "k";
  t.make();
  bool g[NKEYS], any = false;
  for (int i = 0; i < NKEYS; i++) { g[i] = genuine(t, k[i]); any |= g[i]; }
  any &= t.kid != "x";
  Str sig = t.jwt.signature_;
#ifdef FAULTS
  model_faults = true;
  Status s = verifyJwtWithoutTimeChecking(t.jwt, *ks);
  model_faults = false;
  if (s == Status::Ok) { sym_reach("accepted"); sym_assert(any, "under a library failure, still accepted only on a genuine signature"); }
  else sym_reach("rejected");
#else
  // another token, of the second key's family when there is one
  jsonDocs().clear();
  model_json_reset();
  static const int own[6] = {0, 6, 7, 8, 9, 12};
  u.alg = own[k[NKEYS - 1].type];
  u.hsec = "SA==";
  u.sig = sym_string(al[u.alg], "sig2");
  u.make();
  bool gu = false;
  for (int i = 0; i < NKEYS; i++) gu |= genuine(u, k[i]);
  // warm up, then measure
  Str a = dump(t.jwt), b = dump(*ks), c = dump(u.jwt);
  model_err = 0;
  int64_t live = model_crypto_live;
  Status s;
  {
    s = verifyJwtWithoutTimeChecking(t.jwt, *ks);
    sym_assert(model_crypto_live == live, "every library object created is released");
    if (s != Status::Ok) { sym_reach("rejected"); sym_assert(model_err == 0, "a failed verification leaves no entry in the error queue"); }
    else sym_reach("accepted");
  }
  sym_heap_mark();
  {
    Status s2 = verifyJwtWithoutTimeChecking(u.jwt, *ks);
    sym_assert((s2 == Status::Ok) == gu, "the other token gets its own answer");
    Status s3 = verifyJwtWithoutTimeChecking(t.jwt, *ks);
    sym_assert(s3 == s, "repeating a verification gives the same answer");
  }
#endif
  sym_assert(t.jwt.signature_.size() == sig.size() && same(sig, t.jwt.signature_), "the token is unchanged");
#ifndef FAULTS
  sym_assert(dump(t.jwt) == a && dump(*ks) == b && dump(u.jwt) == c, "token and key set are unchanged");
#endif
}
