// Hostile texts: whatever is parsed is then verified against a key of every kind,
// also when parsing failed and when the library runs out of memory.
#include "keys.h"
#include "model_clock.h"
DEFINE_MODEL_JSON
extern "C" void sym_main() {
  keysValid();
  // header, payload and signature: well-formed, undecodable, not JSON, of any kind, any short text
  pb::Struct* h = addDoc("H");
  pb::Struct* p = addDoc("P");
  addDoc("E");
  int alg = sym_choose("alg", 16);
  Str a = alg < 13 ? Str(kAlg(alg)) : alg == 13 ? sym_string(5, "algname") : alg == 14 ? Str() : Str("none");
  pb::Value& av = (*h->mutable_fields())["alg"];
  av.model_fill(1, true, a);
  if (alg >= 12) { av.model_kind(sym_range("kind", 1, 6)); h->mutable_fields()->model_presence("alg", sym_bool("present")); }
  else av.model_kind(3);
  Str kid = sym_string(1, "kid");
  setStr(h, "kid", kid);
  const int fam5 = alg < 13 ? fam(alg) : 5;
  bool odd = alg >= 12;
  if (odd) {
    static const char* const names[4] = {"aud", "exp", "nbf", "jti"};
    const char* n = names[sym_choose("claim", 4)];
    pb::Value& v = (*p->mutable_fields())[n];
    v.model_fill(-1, true, "a");
    v.mutable_list_value()->add_values()->model_kind(sym_range("element", 1, 6));
    v.model_kind(sym_range("kind", 1, 6));
  } else {
    // any moment, any window
    setNum(p, "exp", 10);
  }
  static const char* const sec[4] = {"SA", "RQ", "S", ""};  // H, E, undecodable, empty
  static const char* const pay[4] = {"UA", "RQ", "U", ""};
  Str t = sec[odd ? sym_choose("header", 4) : 0];
  int dots = odd ? 1 + (int)sym_choose("dots", 3) : 2;
  t += ".";
  t += pay[odd ? sym_choose("payload", 4) : 0];
  for (int i = 1; i < dots; i++) t += ".";
  static const int lens[4] = {0, 1, 3, 132};
  if (odd) t += sym_string(sym_choose("siglen", 3), "sig");
  else { int n = lens[sym_choose("siglen", 4)]; t += n ? b64url(Str(n, 's')) : Str(); }
  KeySpec k;
  k.type = odd ? (int)(alg == 12 ? KOKP : KRSA) : (int)sym_choose("type", 6);
  k.material();
  if (sym_choose("named", 2)) k.kid = "k";
  k.toJwk(addJwk(addDoc("J")));
  JwksPtr ks = Jwks::createFrom("J", Jwks::JWKS), none = Jwks::createFrom("X", Jwks::JWKS);
  Jwt j;
  Status s = j.parseFromString(t);
  if (s == Status::Ok) sym_reach("parsed"); else sym_reach("unparsed");
#ifdef FAULTS
  model_faults = true;
#endif
  model_unix_now = 5;
  Status v;
  switch (sym_choose("entry", odd ? 2 : 4)) {
    case 0: v = verifyJwtWithoutTimeChecking(j, *ks); break;
    case 1: v = verifyJwt(j, *ks, {"a"}); break;
    case 2: v = verifyJwt(j, *none); break;
    default: v = verifyJwt(j, *ks, (uint64_t)5);
  }
  model_faults = false;
  if (v != Status::Ok) sym_reach("rejected");
}
