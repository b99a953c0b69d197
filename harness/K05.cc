// PEM documents, and additions to an existing key set.
#include "keys.h"
DEFINE_MODEL_JSON
#ifndef ADDS
#define ADDS 2
#endif
enum { P_RSA, P_EC256, P_EC384, P_EC521, P_ED, P_OTHER, P_GARBAGE, NPEM };
static KeySpec pem(int kind, int idx) {
  KeySpec k;
  k.idx = idx;
  k.type = kind == P_RSA ? KRSA : kind == P_ED ? KOKP : KEC256 + kind - P_EC256;
  if (kind >= P_OTHER) k.type = KRSA;
  k.material();
  if (kind == P_OTHER) { ModelPubKey o; o.type = 116; o.raw = "dsa"; model_register_pem(k.pemText(), o); }
  else if (kind != P_GARBAGE) model_register_pem(k.pemText(), k.pub());
  return k;
}
static Str repOf(const Jwks::Pubkey& p) { return p.rsa_ ? model_rep_rsa(p.rsa_.get()) : p.ec_key_ ? model_rep_ec(p.ec_key_.get()) : !p.okp_key_raw_.empty() ? p.okp_key_raw_ : p.hmac_key_; }
static void is(const Jwks::Pubkey& p, const KeySpec& k, const Str& kid, const Str& alg, const char* what) {
  sym_assert((p.kid_ == kid) & (p.alg_ == alg), what);
  sym_assert(repOf(p) == k.rep(), what);
  sym_assert(p.kty_ == (k.type == KRSA ? "RSA" : k.type == KOKP ? "OKP" : k.type == KOCT ? "oct" : "EC"), what);
  sym_assert(!!p.rsa_ + !!p.ec_key_ + !p.okp_key_raw_.empty() + !p.hmac_key_.empty() == 1, what);
  if (k.type == KOKP && alg != "ES384") sym_assert(p.crv_ == "Ed25519", what);
}
static bool errOf(int kind, Status s) { return kind == P_OTHER ? s == Status::JwksPemNotImplementedKty : s == Status::JwksPemBadBase64; }
static Str label(int which, const char* name) { return which == 0 ? Str() : which == 1 ? sym_string(1, name) : Str("ES384"); }
extern "C" void sym_main() {
  keysValid();
#ifdef FAULTS
  model_faults = true;
#endif
#ifdef PRIOR
  priorLoads();
#endif
  int kind = sym_choose("pem", NPEM);
#ifdef MANY
  if (false) {
#else
  if (sym_choose("mode", 2) == 0) {
#endif
    KeySpec k = pem(kind, 0);
    bool labels = sym_choose("labels", 2);
    Str kid = labels ? label(sym_choose("kid", 2), "kid") : Str(), alg = labels ? label(sym_choose("alg", 3), "alg") : Str();
    JwksPtr js = labels ? Jwks::createFromPem(k.pemText(), kid, alg) : Jwks::createFrom(k.pemText(), Jwks::PEM);
    model_faults = false;
    if (kind < P_OTHER) {
#ifdef FAULTS
      if (js->getStatus() != Status::Ok) { sym_assert(js->keys().empty(), "a set that failed to load has no keys"); return; }
#endif
      sym_reach("loaded");
      sym_assert(js->getStatus() == Status::Ok, "a supported PEM key loads");
      sym_assert(js->keys().size() == 1, "a PEM document yields one key");
      if (js->keys().size() == 1) is(*js->keys()[0], k, kid, alg, "the key is that of the document, with the caller's labels");
    } else {
      sym_reach("refused");
#ifndef FAULTS
      sym_assert(errOf(kind, js->getStatus()), "an unusable PEM document gets its own status");
#endif
      sym_assert(js->getStatus() != Status::Ok, "an unusable PEM document gets an error");
      sym_assert(js->keys().empty(), "an unusable PEM document yields no key");
    }
    return;
  }
  // additions
#ifdef MANY
  int prior = MANY;
#else
  int prior = sym_choose("prior", 5);
#endif
  std::vector<KeySpec> want;
  std::vector<Str> kids, algs;
  JwksPtr js;
  bool faults = model_faults;
  model_faults = false;
  if (prior == 0) js.reset(new Jwks);
  else if (prior == 4) { KeySpec k = pem(P_RSA, 5); js = Jwks::createFromPem(k.pemText(), "pk", "RS256"); want.push_back(k); kids.push_back("pk"); algs.push_back("RS256"); }
  else {
    pb::Struct* d = addDoc("DOC", prior != 3);
    for (int i = 0; i < prior && prior != 3; i++) {
      KeySpec k;
      k.type = i % 2 ? KOCT : KEC256; k.idx = 6 + i; k.kid = "j"; k.alg = i % 2 ? "HS256" : "ES256";
      k.material();
      k.toJwk(addJwk(d));
      want.push_back(k); kids.push_back(k.kid); algs.push_back(k.alg);
    }
    js = Jwks::createFrom("DOC", Jwks::JWKS);
  }
  model_faults = faults;
  Status before = js->getStatus();
  sym_assert((before == Status::Ok) == (prior != 3), "the prior sets of this harness load as intended");
  for (int a = 0; a < ADDS; a++) {
    if (a) kind = sym_choose("pem", NPEM);
    KeySpec k = pem(kind, a);
    Str kid = label(sym_choose("kid", 2), "kid"), alg = label(sym_choose("alg", 3), "alg");
    Status was = js->getStatus();
    Status s = js->addKeyFromPem(k.pemText(), kid, alg);
    if (kind < P_OTHER && (!faults || s == Status::Ok)) {
      sym_reach("added");
      sym_assert(s == Status::Ok, "a supported PEM key is added");
      want.push_back(k); kids.push_back(kid); algs.push_back(alg);
      if (was == Status::Ok) sym_assert(js->getStatus() == Status::Ok, "adding a key keeps an Ok set Ok");
    } else {
      sym_reach("not_added");
      if (!faults) sym_assert(errOf(kind, s), "a failed addition returns the error");
      sym_assert(s != Status::Ok, "a failed addition returns an error");
      sym_assert(js->getStatus() == was, "a failed addition leaves the set's status");
    }
    sym_assert(js->keys().size() == want.size(), "exactly the added keys are appended");
    if (js->keys().size() != want.size()) return;
    for (size_t i = 0; i < want.size(); i++) is(*js->keys()[i], want[i], kids[i], algs[i], "every key stays in place, unchanged");
  }
}
