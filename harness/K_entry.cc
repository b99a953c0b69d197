// One entry of a JWKS document, every member present or absent, of any JSON
// kind, with symbolic text.
#include "keys.h"
#include "openssl/bn.h"
#include "openssl/ec_key.h"
#include "openssl/rsa.h"
#include "absl/strings/escaping.h"
DEFINE_MODEL_JSON
#ifndef ANYTEXT
#define ANYTEXT 0  // texts of 1 to ANYTEXT symbolic characters too
#endif
static pb::Struct* ent;
struct Mem { Str v; bool present, isstr; Str text() const { return present && isstr ? v : Str(); } bool missing() const { return !present; } bool wrong() const { return present && !isstr; } };
static Mem mem(const char* name, const Str& v, bool symbolic = true) {
  Mem m;
  m.v = v;
  pb::Value& val = (*ent->mutable_fields())[name];
  val.model_fill(7, true, v);
  uint64_t k = symbolic ? sym_range("kind", 1, 6) : 3;
  m.present = symbolic ? sym_bool("present") : true;
  m.isstr = k == 3;
  val.model_kind(k);
  ent->mutable_fields()->model_presence(name, m.present);
  return m;
}
// base64url text: of n symbolic bytes, undecodable, or of symbolic characters
struct B64 { bool ok; Str raw, text; };
#ifdef LONG  // long values instead: the first and last byte symbolic
static Str bytes(size_t n, const char* name) {
  if (n < 16) return sym_string(n, name);
  Str s(n, 'v');
  s[0] = (char)sym_u8(name);
  s[n - 1] = (char)sym_u8(name);
  return s;
}
#else
static Str bytes(size_t n, const char* name) { return sym_string(n, name); }
#endif
static B64 b64(const char* name, std::initializer_list<int> lens, bool vary) {
  size_t c = vary ? sym_choose(name, lens.size() + 2 + ANYTEXT) : 0;
  B64 b;
  if (c >= lens.size() + 2) { b.text = sym_string(c - lens.size() - 1, "text"); b.ok = absl::WebSafeBase64Unescape(b.text, &b.raw); if (!b.ok) b.raw.clear(); }
  else if (c < lens.size()) { b.ok = true; b.raw = bytes(lens.begin()[c], name); b.text = b64url(b.raw); }
  else { b.ok = false; b.text = c == lens.size() ? "QQ!Q" : "QQQQQ"; }
  return b;
}
static Str text(const char* name, std::initializer_list<int> lens) { return sym_string(lens.begin()[sym_choose(name, lens.size())], name); }
static bool bnIs(const BIGNUM* b, const Str& raw) {
  if (!b) return false;
  bssl::UniquePtr<BIGNUM> w(BN_bin2bn((const uint8_t*)raw.data(), raw.size(), nullptr));
  return BN_cmp(b, w.get()) == 0;
}
static uint64_t be(const Str& s) { uint64_t r = 0; for (unsigned char c : s) r = r << 8 | c; return r; }
static bool libOk;
static bool rsaHook(const Str&, const Str&) { return libOk; }
static bool ecHook(int, const Str&, const Str&) { return libOk; }
static bool lab = true, mat = true;  // labels / key material symbolic
extern "C" void sym_main() {
#ifdef LONG
  lab = false;
#elif !defined JOINT
  lab = sym_choose("focus", 2);
  mat = !lab;
#endif
  model_rsa_check_hook = rsaHook;
  model_ec_point_hook = ecHook;
  pb::Struct* doc = addDoc(kDoc);
  ent = addJwk(doc);
  libOk = sym_bool("library_accepts");
#ifdef LONG
#define LENS(...) {15, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 67, 127, 128, 129, 192, 255, 256, 257, 384, 511, 512, 513, 768, 1024, 1025, 2048, 2049}
  Mem kid = mem("kid", Str(300, 'k') + sym_string(1, "kid"), lab);
#else
#define LENS(...) {__VA_ARGS__}
  Mem kid = mem("kid", "k" + sym_string(1, "kid"), lab);
#endif
#if defined(RSA_)
  const char* ty = "RSA";
  Mem kty = mem("kty", ty, lab);
  Mem alg = mem("alg", lab ? text("alg", {0, 1, 2, 3, 5}) : Str("RS256"), lab);
  B64 nb = b64("n", LENS(2, 0), mat), eb = b64("e", {1, 3, 4, 9}, mat);
  Mem n = mem("n", nb.text, mat), e = mem("e", eb.text, mat);
  Str A = alg.text();
  bool badAlg = !A.empty() && !(A.size() >= 2 && (A[0] == 'R' || A[0] == 'P') && A[1] == 'S');
  uint64_t ev = be(eb.raw);
  bool eok = eb.ok && (ev == 3 || ev == 65537) && (eb.raw.size() < 9 || eb.raw[0] == 0);
  bool parse = !nb.ok || !eb.ok || !eok || !libOk;
  bool good = kty.text() == ty && !badAlg && n.present && n.isstr && e.present && e.isstr && !parse;
#elif defined(EC_)
  const char* ty = "EC";
  Mem kty = mem("kty", ty, lab);
  Mem alg = mem("alg", lab ? text("alg", {0, 1, 2, 5, 6}) : Str("ES384"), lab);
  Mem crv = mem("crv", lab ? text("crv", {0, 5, 6}) : Str("P-384"), lab);
  B64 xb = b64("x", LENS(2, 0), mat), yb = b64("y", LENS(1), mat);
  Mem x = mem("x", xb.text, mat), y = mem("y", yb.text, mat);
  Str A = alg.text(), C = crv.text();
  int ai = A == "ES256" ? KEC256 : A == "ES384" ? KEC384 : A == "ES512" ? KEC521 : 0;
  int ci = C == "P-256" ? KEC256 : C == "P-384" ? KEC384 : C == "P-521" ? KEC521 : 0;
  bool badAlg = !A.empty() && !(A.size() >= 2 && A[0] == 'E' && A[1] == 'S');
  bool unsup = (!A.empty() && !ai) || (!C.empty() && !ci);
  bool clash = !A.empty() && !C.empty() && (ai != ci || !ai);
  int type = ai ? ai : ci ? ci : KEC256;
  bool good = kty.text() == ty && !badAlg && !crv.wrong() && !unsup && !clash && x.present && x.isstr && y.present && y.isstr && xb.ok && yb.ok && libOk;
#elif defined(OCT_)
  const char* ty = "oct";
  Mem kty = mem("kty", ty, lab);
  Mem alg = mem("alg", lab ? text("alg", {0, 1, 4, 5, 6}) : Str("HS512"), lab);
  B64 kb = b64("k", LENS(1, 0, 2, 3, 4), mat);
  Mem k = mem("k", kb.text, mat);
  Str A = alg.text();
  bool badAlg = !A.empty() && A != "HS256" && A != "HS384" && A != "HS512";
  bool good = kty.text() == ty && !badAlg && k.present && k.isstr && kb.ok && !kb.raw.empty();
#elif defined(OKP_)
  const char* ty = "OKP";
  Mem kty = mem("kty", ty, lab);
  Mem alg = mem("alg", lab ? text("alg", {0, 1, 4, 5, 6}) : Str("EdDSA"), lab);
  Mem crv = mem("crv", lab ? text("crv", {0, 6, 7, 8}) : Str("Ed25519"), lab);
  B64 xb;
  int xl = mat ? sym_choose("x", 8) : 0;
  static const int lens[5] = {32, 0, 31, 33, 64};
  if (xl < 5) { xb.ok = true; xb.raw = Str(lens[xl], 'x'); if (lens[xl]) xb.raw = sym_string(1, "x") + xb.raw.substr(1, lens[xl] - 2) + sym_string(1, "x"); xb.text = b64url(xb.raw); }
  else if (xl == 7) { xb.ok = true; xb.raw = Str(31, 'x') + sym_string(1, "x"); xb.text = b64url(xb.raw) + "="; }
  else { xb.ok = false; xb.text = xl == 5 ? b64url(Str(32, 'x')) + "!" : "QQQQQ"; }
  Mem x = mem("x", xb.text, mat);
  Str A = alg.text(), C = crv.text();
  bool badAlg = !A.empty() && A != "EdDSA";
  bool good = kty.text() == ty && !badAlg && C == "Ed25519" && x.present && x.isstr && xb.ok && xb.raw.size() == 32;
#else
  const char* ty = "";
  Mem kty = mem("kty", text("kty", {0, 1, 2, 3, 4}));
  Mem alg = mem("alg", "ZZ");
  Str A = alg.text();
  bool good = false;
#endif
  // members of other key types do not matter
#if !defined(RSA_) && !defined(OTHER_)
  mem("n", b64url(Str("N0") + Str(30, 'n')), false); mem("e", "Aw", false);
#endif
#if !defined(EC_) && !defined(OKP_) && !defined(OTHER_)
  mem("x", b64url(Str(32, 'x')), false); mem("y", "QQ", false); mem("crv", "P-256", false);
#endif
#if !defined(OCT_) && !defined(OTHER_)
  mem("k", "QUJD", false);
#endif
#ifdef PRIOR  // another document loaded before: of any form, or the same but for one member
#if defined(RSA_)
  static const char* const swap[][2] = {{"kid", "other"}, {"alg", "PS512"}, {"n", "Tjhubm4"}, {"e", "Aw"}, {"e", "AQAB"}};
#elif defined(EC_)
  static const char* const swap[][2] = {{"kid", "other"}, {"alg", "ES256"}, {"crv", "P-521"}, {"x", "Qjg"}, {"y", "Qjg"}};
#elif defined(OKP_)
  static const char* const swap[][2] = {{"kid", "other"}, {"alg", "EdDSA"}, {"crv", "Ed25519"}, {"x", "ODg4ODg4ODg4ODg4ODg4ODg4ODg4ODg4ODg4ODg4ODg"}};
#else
  static const char* const swap[][2] = {{"kid", "other"}, {"alg", "HS384"}, {"k", "Qjg"}};
#endif
  int swapped = sym_choose("swapped", 2 + sizeof swap / sizeof *swap);
  if (swapped == 0) priorLoads();
  else {
    pb::Struct* d = addDoc(relText(kDoc, swapped & 3));
    *d = *doc;
    pb::Struct* e = (*d->mutable_fields())["keys"].mutable_list_value()->mutable_values(0)->mutable_struct_value();
    if (swapped > 1) {
      const char* name = swap[swapped - 2][0];
      setStr(e, name, swap[swapped - 2][1]);
      (*e->mutable_fields())[name].model_kind(3);
      e->mutable_fields()->model_presence(name, true);
    }
    kept() = Jwks::createFrom(relText(kDoc, swapped & 3), Jwks::JWKS);
  }
#endif
#ifdef FAULTS
  model_faults = true;
#endif
  JwksPtr js = Jwks::createFrom(kDoc, Jwks::JWKS);
  model_faults = false;
  Status s = js->getStatus();
  if (good) {
    sym_reach("kept");
    sym_assert(s == Status::Ok, "a well-formed entry loads with status Ok");
    sym_assert(js->keys().size() == 1, "a well-formed entry yields one key");
    if (js->keys().size() != 1) return;
    const Jwks::Pubkey& p = *js->keys()[0];
    sym_assert(p.kty_ == ty, "the key has the entry's type");
    sym_assert(p.kid_ == kid.text(), "the key has the entry's kid");
    sym_assert(p.alg_ == A, "the key has the entry's alg");
#if defined(RSA_)
    const BIGNUM *kn = nullptr, *ke = nullptr;
    if (!p.rsa_) sym_fail("an RSA key is loaded");
    RSA_get0_key(p.rsa_.get(), &kn, &ke, nullptr);
    sym_assert(bnIs(kn, nb.raw) & bnIs(ke, eb.raw), "modulus and exponent are exactly the decoded values");
    sym_assert(!p.ec_key_ & p.hmac_key_.empty() & p.okp_key_raw_.empty(), "an RSA entry yields only an RSA key");
#elif defined(EC_)
    if (!p.ec_key_) sym_fail("an EC key is loaded");
    const EC_GROUP* g = EC_KEY_get0_group(p.ec_key_.get());
    sym_assert(EC_GROUP_get_curve_name(g) == nidOf(type), "the key is on the curve alg and crv name");
    sym_assert(p.crv_ == crvOf(type), "the key's crv is that of its curve");
    sym_assert(model_rep_ec(p.ec_key_.get()) == model_key_ec(nidOf(type), xb.raw, yb.raw), "the point is exactly the decoded one");
    sym_assert(!p.rsa_ & p.hmac_key_.empty() & p.okp_key_raw_.empty(), "an EC entry yields only an EC key");
#elif defined(OCT_)
    sym_assert(p.hmac_key_ == kb.raw, "the symmetric key is exactly the decoded value");
    sym_assert(!p.rsa_ & !p.ec_key_ & p.okp_key_raw_.empty(), "an oct entry yields only a symmetric key");
#elif defined(OKP_)
    sym_assert(p.okp_key_raw_ == xb.raw, "the Ed25519 key is exactly the decoded value");
    sym_assert(p.crv_ == "Ed25519", "the key's crv is Ed25519");
    sym_assert(!p.rsa_ & !p.ec_key_ & p.hmac_key_.empty(), "an OKP entry yields only an Ed25519 key");
#endif
    return;
  }
  sym_reach("refused");
  sym_assert(js->keys().empty(), "a malformed entry yields no key");
  sym_assert(s != Status::Ok, "a set without keys is not Ok");
  const char* why = "the status names what is wrong with the entry";
  switch (s) {
    case Status::JwksMissingKty: sym_assert(kty.missing(), why); break;
    case Status::JwksBadKty: sym_assert(kty.wrong(), why); break;
    case Status::JwksNotImplementedKty: {
      Str K = kty.text();
      sym_assert(kty.present & kty.isstr, why);
      sym_assert(K != "RSA" && K != "EC" && K != "oct" && K != "OKP", why);
      break;
    }
#if defined(RSA_)
    case Status::JwksRSAKeyBadAlg: sym_assert(badAlg, why); break;
    case Status::JwksRSAKeyMissingN: sym_assert(n.missing(), why); break;
    case Status::JwksRSAKeyBadN: sym_assert(n.wrong(), why); break;
    case Status::JwksRSAKeyMissingE: sym_assert(e.missing(), why); break;
    case Status::JwksRSAKeyBadE: sym_assert(e.wrong(), why); break;
    case Status::JwksRsaParseError: sym_reach("parse"); sym_assert(parse & n.present & e.present, why); break;
#elif defined(EC_)
    case Status::JwksECKeyBadAlg: sym_assert(badAlg, why); break;
    case Status::JwksECKeyBadCrv: sym_assert(crv.wrong(), why); break;
    case Status::JwksECKeyAlgNotCompatibleWithCrv: sym_reach("clash"); sym_assert(clash, why); break;
    case Status::JwksECKeyAlgOrCrvUnsupported: sym_reach("unsupported"); sym_assert(unsup, why); break;
    case Status::JwksECKeyMissingX: sym_assert(x.missing(), why); break;
    case Status::JwksECKeyBadX: sym_assert(x.wrong(), why); break;
    case Status::JwksECKeyMissingY: sym_assert(y.missing(), why); break;
    case Status::JwksECKeyBadY: sym_assert(y.wrong(), why); break;
    case Status::JwksEcXorYBadBase64: sym_assert(!xb.ok || !yb.ok, why); break;
    case Status::JwksEcParseError: sym_reach("parse"); sym_assert(!libOk, why); break;
#elif defined(OCT_)
    case Status::JwksHMACKeyBadAlg: sym_assert(badAlg, why); break;
    case Status::JwksHMACKeyMissingK: sym_assert(k.missing(), why); break;
    case Status::JwksHMACKeyBadK: sym_assert(k.wrong(), why); break;
    case Status::JwksOctBadBase64: sym_reach("parse"); sym_assert(!kb.ok || kb.raw.empty(), why); break;
#elif defined(OKP_)
    case Status::JwksOKPKeyBadAlg: sym_assert(badAlg, why); break;
    case Status::JwksOKPKeyMissingCrv: sym_assert(crv.missing(), why); break;
    case Status::JwksOKPKeyBadCrv: sym_assert(crv.wrong(), why); break;
    case Status::JwksOKPKeyCrvUnsupported: sym_assert(crv.present && crv.isstr && C != "Ed25519", why); break;
    case Status::JwksOKPKeyMissingX: sym_assert(x.missing(), why); break;
    case Status::JwksOKPKeyBadX: sym_assert(x.wrong(), why); break;
    case Status::JwksOKPXBadBase64: sym_reach("parse"); sym_assert(!xb.ok, why); break;
    case Status::JwksOKPXWrongLength: sym_reach("length"); sym_assert(xb.ok && xb.raw.size() != 32, why); break;
#else
    case Status::JwksRSAKeyBadAlg: case Status::JwksRSAKeyMissingN: case Status::JwksRSAKeyMissingE: sym_reach("rsa"); sym_assert(kty.text() == "RSA", why); break;
    case Status::JwksECKeyBadAlg: case Status::JwksECKeyMissingX: case Status::JwksECKeyMissingY: sym_assert(kty.text() == "EC", why); break;
    case Status::JwksHMACKeyBadAlg: case Status::JwksHMACKeyMissingK: sym_assert(kty.text() == "oct", why); break;
    case Status::JwksOKPKeyBadAlg: case Status::JwksOKPKeyMissingX: case Status::JwksOKPKeyMissingCrv: sym_assert(kty.text() == "OKP", why); break;
#endif
    default: sym_fail(why);
  }
}
