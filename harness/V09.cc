// Everything a server does per request, with the key set (and sometimes the
// token) shared with other threads.
#include "keys.h"
#include "model_clock.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/struct_utils.h"
DEFINE_MODEL_JSON
#ifndef NKEYS
#define NKEYS 1
#endif
extern "C" void sym_main() {
  keysValid();
  Token& t = *new Token;
  t.alg = sym_choose("token_alg", 13);
  static const int ty[13] = {KRSA, KRSA, KRSA, KRSA, KRSA, KRSA, KEC256, KEC384, KEC521, KOCT, KOCT, KOCT, KOKP};
  KeySpec* k = new KeySpec[NKEYS];
  pb::Struct* doc = addDoc("J");
  for (int i = 0; i < NKEYS; i++) {
    k[i].idx = i;
    k[i].type = i ? (int)sym_choose("type", 6) : ty[t.alg];
    k[i].material();
    if (sym_choose("named", 2)) k[i].kid = "k";
    k[i].toJwk(addJwk(doc));
  }
  // what the PEM, certificate and map loaders meet
  KeySpec pem; pem.type = KRSA; pem.idx = 5; pem.material();
  model_register_pem(pem.pemText(), pem.pub());
  model_register_x509(pem.certText(), true, pem.pub());
  setStr(addDoc("M"), "c", pem.certText());
  JwksPtr* ks = new JwksPtr(Jwks::createFrom("J", Jwks::JWKS));
  static const int al[13] = {32, 32, 32, 32, 32, 32, 64, 96, 132, 32, 48, 64, 64};
  t.sig = sym_string(sym_choose("short", 2) ? 3 : al[t.alg], "sig");
  if (sym_choose("token_named", 2)) t.kid = "k";
  t.make();
  setStr(&jsonDocs()[jsonDocs().size() - 1]->val, "aud", "https://a/");
  setNum(&jsonDocs()[jsonDocs().size() - 1]->val, "exp", 100);
  model_json_reset();
  Str sig = t.sig;
  if (t.jwt.parseFromString("SA.UA." + b64url(sig.size() == 3 ? Str("abc") : Str(sig.size(), 's'))) != Status::Ok) sym_fail("a well-formed token parses");
  t.jwt.signature_ = sig;
  for (int i = 0; i < NKEYS; i++) genuine(t, k[i]);
  model_unix_now = sym_choose("late", 2) ? 1000 : 50;
  int what = sym_choose("what", 8);
  std::vector<Str>* auds = new std::vector<Str>{"a"};
  CheckAudience* ca = new CheckAudience(*auds);
  Jwt& jwt = t.jwt;
  Status out[2] = {Status::Ok, Status::Ok};
  // another token, with a header and a payload of its own
  setStr(addDoc("H2"), "alg", "ES256");
  addDoc("{}");
  const char* other = "SDI.e30.c2ln";
  sym_isolated([&] {
    Status s = Status::Ok;
    switch (what) {
      case 0: s = verifyJwtWithoutTimeChecking(jwt, **ks); break;
      case 1: s = verifyJwt(jwt, **ks); break;
      case 2: s = verifyJwt(jwt, **ks, (uint64_t)50); break;
      case 3: s = verifyJwt(jwt, **ks, *auds); break;
      case 4: s = verifyJwt(jwt, **ks, *auds, (uint64_t)50); break;
      case 5: {
        Jwt own;
        s = own.parseFromString(jwt.jwt_);
        Jwt copy(jwt);
        if (sym_choose("other", 2)) s = own.parseFromString(other);
        copy = own;
        StructUtils g(own.header_pb_);
        std::string v;
        g.GetString("alg", &v);
        if (s == Status::Ok) s = own.verifyTimeConstraint(50, 1);
        break;
      }
      case 6: {
        JwksPtr own = Jwks::createFrom("J", Jwks::JWKS);
        s = own->getStatus();
        JwksPtr p2 = Jwks::createFrom("PEM5", Jwks::PEM);
        p2->addKeyFromPem("PEM5", "x", "RS256");
        JwksPtr m = Jwks::createFrom("M", Jwks::JWKS);
        break;
      }
      default:
        s = ca->areAudiencesAllowed(jwt.audiences_) ? Status::Ok : Status::JwtAudienceNotAllowed;
        getStatusString(s);
    }
    if (s == Status::Ok) sym_reach("ok"); else sym_reach("failed");
  });
}
