// One key by every load path and label, one token of every alg; what the
// crypto library would say about anything is arbitrary.
#include "keys.h"
DEFINE_MODEL_JSON
extern "C" void sym_main() {
  keysValid();
  Token t;
  t.alg = sym_choose("token_alg", 13);
  KeySpec k;
  k.type = sym_choose("type", 6);
  k.material();
  JwksPtr ks;
  int path = sym_choose("path", 6);
  int lab = path >= 2 && path <= 3 ? sym_choose("label", 15) : 13;
  Str label = lab < 13 ? kAlg(lab) : lab == 13 ? "" : "none";
  bool pem = k.type != KOCT;
  switch (path) {
    case 0: case 1: {  // JWKS without alg; for EC also without crv
      if (path == 1 && k.type != KEC256) sym_end();
      k.toJwk(addJwk(addDoc("J")), path == 0);
      ks = Jwks::createFrom("J", Jwks::JWKS);
      break;
    }
    case 2: case 3:
      if (!pem) sym_end();
      model_register_pem(k.pemText(), k.pub());
      if (path == 2) ks = Jwks::createFromPem(k.pemText(), "", label);
      else {
        addDoc("J")->mutable_fields();
        ks = Jwks::createFrom("J", Jwks::JWKS);
        if (ks->addKeyFromPem(k.pemText(), "", label) != Status::Ok) sym_end();
      }
      break;
    case 4:
      if (!pem) sym_end();
      model_register_pem(k.pemText(), k.pub());
      ks = Jwks::createFrom(k.pemText(), Jwks::PEM);
      break;
    case 5:
      if (k.type != KRSA) sym_end();
      model_register_x509(k.certText(), true, k.pub());
      setStr(addDoc("J"), "kid", k.certText());
      ks = Jwks::createFrom("J", Jwks::JWKS);
      break;
  }
  if (ks->keys().size() != 1) sym_fail("the key loads");
  if (sym_choose("reload_label", 2) && path < 2) {  // the same with the family's own label
    static const int own[6] = {0, 6, 7, 8, 9, 12};
    k.alg = kAlg(own[k.type] + (k.type == KRSA || k.type == KOCT ? (int)sym_choose("own", 3) : 0));
    pb::Struct* d = addDoc("J2");
    k.toJwk(addJwk(d), path == 0);
    ks = Jwks::createFrom("J2", Jwks::JWKS);
    if (ks->keys().size() != 1) sym_fail("the labelled key loads");
  }
  static const int sl[6] = {kRsaLen, 64, 96, 132, 0, 64};
  static const int al[13] = {kRsaLen, kRsaLen, kRsaLen, kRsaLen, kRsaLen, kRsaLen, 64, 96, 132, 32, 48, 64, 64};
  int len = sym_choose("sig_for_key", 2) ? (k.type == KOCT ? 32 + 16 * (int)sym_choose("tag", 3) : sl[k.type]) : al[t.alg];
  t.sig = sym_string(len, "sig");
  t.make();
#ifdef PRIOR  // a token of an alg the key may fit judged before
  {
    static const int own[6] = {0, 6, 7, 8, 9, 12};
    Token p;
    p.alg = own[k.type] + (k.type == KRSA || k.type == KOCT ? 1 : 0);
    p.hsec = "SQ";
    p.sig = sym_choose("same_sig", 2) ? t.sig : sym_string(al[p.alg], "prior_sig");
    p.make("I");
    verifyJwtWithoutTimeChecking(p.jwt, *ks);
  }
#endif
  Status s = verifyJwtWithoutTimeChecking(t.jwt, *ks);
  if (s == Status::Ok) {
    sym_reach("accepted");
    sym_assert(fits(k.type, t.alg), "a key accepts only algs of its own type and curve");
  } else {
    sym_reach("rejected");
    if (!fits(k.type, t.alg)) {
      sym_reach("confused");
      sym_assert(s == Status::JwtVerificationFail || s == Status::JwksKidAlgMismatch, "a token of another family is a verification failure or mismatch");
    }
  }
}
