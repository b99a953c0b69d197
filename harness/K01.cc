// Documents with a list of entries, each valid or broken in its own way.
#include "keys.h"
#include "openssl/rsa.h"
DEFINE_MODEL_JSON
#ifndef NE
#define NE 3
#endif
enum { E_RSA, E_EC, E_OCT, E_OKP, E_NOKTY, E_KTYKIND, E_KTY, E_RSAALG, E_RSAPARSE, E_ECX, E_OCTB64, E_OKPLEN, E_NONOBJ, NKIND };
static const Status kErr[NKIND] = {Status::Ok, Status::Ok, Status::Ok, Status::Ok, Status::JwksMissingKty, Status::JwksBadKty, Status::JwksNotImplementedKty, Status::JwksRSAKeyBadAlg,
                                   Status::JwksRsaParseError, Status::JwksECKeyMissingX, Status::JwksOctBadBase64, Status::JwksOKPXWrongLength, Status::Ok};
extern "C" void sym_main() {
  keysValid();
#ifdef PRIOR
  priorLoads();
#endif
  int dv = sym_choose("document", 6);
  pb::Struct* d = addDoc(kDoc, dv != 0);
  auto& top = *d->mutable_fields();
  if (dv == 0) setStr(d, "keys", "x");
  if (dv <= 3) {
    Status want = Status::JwksParseError;
    if (dv == 1) {  // no "keys"
      setNum(d, "other", 1);
      d->mutable_fields()->model_presence("other", sym_bool("other"));
      setStr(d, "Keys", "k");
      d->mutable_fields()->model_presence("Keys", sym_bool("Keys"));
      want = Status::JwksNoKeys;
    }
    if (dv == 2) {  // "keys" is no list
      pb::Value& v = top["keys"];
      v.model_fill(1, true, "k");
      uint64_t k = sym_range("kind", 1, 5);
      v.model_kind(k);
      want = Status::JwksBadKeys;
    }
    if (dv == 3) {  // an empty list
      top["keys"].mutable_list_value();
      want = Status::JwksNoValidKeys;
    }
    JwksPtr js = Jwks::createFrom(kDoc, Jwks::JWKS);
    if (js->getStatus() == Status::JwksParseError) sym_reach("notjson");
    sym_assert(js->getStatus() == want, "an unusable document gets its own status");
    sym_assert(js->keys().empty(), "an unusable document yields no keys");
    return;
  }
  if (dv == 5) { setStr(d, "a", "b"); setNum(d, "zz", 4); }  // other members do not matter
  int n = dv == 5 ? 1 : NE;
  KeySpec spec[NE];
  int kind[NE];
  Str kids[NE];
  pb::ListValue* l = top["keys"].mutable_list_value();
  for (int i = 0; i < n; i++) {
    kind[i] = sym_choose("entry", NKIND);
    pb::Value* v = l->add_values();
    if (kind[i] == E_NONOBJ) {
      v->model_fill(2, true, "s");
      uint64_t k = sym_range("kind", 1, 5);
      v->model_kind(k + (k == 5));  // anything but an object
      continue;
    }
    pb::Struct* e = v->mutable_struct_value();
    KeySpec& k = spec[i];
    k.idx = i;
    static const int ty[NKIND] = {KRSA, KEC384, KOCT, KOKP, KRSA, KOCT, KRSA, KRSA, KRSA, KEC256, KOCT, KOKP, 0};
    k.type = ty[kind[i]];
    k.kid = sym_string(1, "kid");
    k.alg = kind[i] == E_RSA ? "PS256" : kind[i] == E_OCT ? "HS256" : "";
    k.material();
    k.toJwk(e);
    auto& f = *e->mutable_fields();
    switch (kind[i]) {
      case E_NOKTY: f.erase("kty"); break;
      case E_KTYKIND: setNum(e, "kty", 1); break;
      case E_KTY: setStr(e, "kty", "RSA2"); break;
      case E_RSAALG: setStr(e, "alg", "HS256"); break;
      case E_RSAPARSE: setStr(e, "n", "!!"); break;
      case E_ECX: f.erase("x"); break;
      case E_OCTB64: setStr(e, "k", "Q"); break;
      case E_OKPLEN: setStr(e, "x", "QUJD"); break;
    }
  }
  JwksPtr js = Jwks::createFrom(kDoc, Jwks::JWKS);
  size_t at = 0;
  Status first = Status::Ok;
  const auto& keys = js->keys();
  for (int i = 0; i < n; i++) {
    if (kind[i] > E_OKP) { if (first == Status::Ok && kind[i] != E_NONOBJ) first = kErr[kind[i]]; continue; }
    if (at >= keys.size()) sym_fail("every well-formed entry yields a key");
    const Jwks::Pubkey& p = *keys[at++];
    KeySpec& k = spec[i];
    sym_assert((p.kid_ == k.kid) & (p.alg_ == k.alg), "keys keep their kid and alg, in document order");
    Str rep = k.type == KRSA ? model_rep_rsa(p.rsa_.get()) : k.type == KOCT ? p.hmac_key_ : k.type == KOKP ? p.okp_key_raw_ : model_rep_ec(p.ec_key_.get());
    sym_assert(rep == k.rep(), "keys keep their material, in document order");
  }
  sym_assert(keys.size() == at, "no other entry yields a key");
  if (at) { sym_reach("kept"); sym_assert(js->getStatus() == Status::Ok, "a set with a key is Ok"); }
  else if (first != Status::Ok) { sym_reach("first"); sym_assert(js->getStatus() == first, "without keys the status is the first entry's error"); }
  else { sym_reach("nothing"); sym_assert(js->getStatus() == Status::JwksNoValidKeys, "without keys or errors the status says so"); }
}
