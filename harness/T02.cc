// alg and kid of every JSON kind and every string.
#include "keys.h"
DEFINE_MODEL_JSON
#ifndef LEN
#define LEN 7
#endif
extern "C" void sym_main() {
  pb::Struct* h = addDoc("H");
  addDoc("P");
  auto& f = *h->mutable_fields();
  Str alg = sym_string(sym_choose("alg_len", LEN + 1), "alg"), kid = sym_string(sym_choose("kid_len", 4), "kid");
  uint64_t ka = sym_range("alg_kind", 1, 6), kk = sym_range("kid_kind", 1, 6);
  bool pa = sym_bool("alg_present"), pk = sym_bool("kid_present");
  f["x"].set_string_value("RS256");
  f["alg"].model_fill(256, true, alg);
  f["alg"].model_kind(ka);
  f["kid"].model_fill(1, false, kid);
  f["kid"].model_kind(kk);
  f.model_presence("alg", pa);
  f.model_presence("kid", pk);
#ifdef PRIOR  // a token with another header parsed before, with the same payload or not
  {
    pb::Struct* g = addDoc("I");
    int how = sym_choose("prior", 4);
    if (how > 1) g = addDoc("J");
    setStr(g, "alg", how == 3 ? "EdDS" : how == 2 ? "EdDSAA" : "ES256");
    setStr(g, "kid", "other");
    Jwt o;
    Status was = o.parseFromString(how > 1 ? "Sg.UA.UUUU" : how ? "SQ.UA.UUUU" : "SQ.UA.VVVV");
    sym_assert(how > 1 ? was == Status::JwtHeaderNotImplementedAlg : was == Status::Ok && o.alg_ == "ES256" && o.kid_ == "other", "an earlier token has its own header");
  }
#endif
  Jwt j;
  Status s = j.parseFromString("SA.UA.UUUU");
  bool isstr = pa & (ka == pb::Value::kStringValue);
  bool impl = false;
  if (alg.size() == 5)
    for (int i = 0; i < 13; i++) {
      bool eq = true;
      for (int c = 0; c < 5; c++) eq &= alg[c] == kAlg(i)[c];
      impl |= eq;
    }
  bool badkid = pk & (kk != pb::Value::kStringValue);
  switch (s) {
    case Status::JwtHeaderBadAlg: sym_reach("bad_alg"); sym_assert(!isstr, "bad alg only if alg is missing or not a string"); break;
    case Status::JwtHeaderNotImplementedAlg: sym_reach("not_implemented"); sym_assert(isstr & !impl, "not implemented only for other names"); break;
    case Status::JwtHeaderBadKid: sym_reach("bad_kid"); sym_assert(isstr & impl & badkid, "bad kid only for a kid that is not a string"); break;
    case Status::Ok:
      sym_reach("ok");
      sym_assert(isstr & impl, "only the thirteen algs pass");
      sym_assert(!badkid, "a kid must be a string");
      sym_assert(j.alg_ == alg, "alg is exposed unchanged");
      sym_assert(pk ? j.kid_ == kid : j.kid_.empty(), "kid is exposed unchanged, or empty");
      break;
    default: sym_fail("the header check has one of its own statuses");
  }
}
