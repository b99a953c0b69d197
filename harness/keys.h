// Shared by the harnesses that need tokens and key sets.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "google/protobuf/struct.pb.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/verify.h"
#include "model_crypto.h"
#include "openssl/evp.h"
#include "openssl/nid.h"
#include "sym.h"
using namespace google::jwt_verify;
namespace pb = google::protobuf;
typedef std::string Str;
bool model_json(const std::string& text, pb::Struct* out);
extern "C" void model_json_reset();
extern "C" int model_map_reverse;

// ---- JSON documents: text -> value
struct JsonDoc { Str text; bool ok; pb::Struct val; };
inline std::vector<JsonDoc*>& jsonDocs() { static std::vector<JsonDoc*>* v = new std::vector<JsonDoc*>; return *v; }
inline pb::Struct* addDoc(const Str& text, bool ok = true) {
  JsonDoc* d = new JsonDoc{text, ok, pb::Struct()};
  jsonDocs().push_back(d);
  return &d->val;
}
#define DEFINE_MODEL_JSON                                             \
  bool model_json(const std::string& text, pb::Struct* out) {         \
    for (JsonDoc* d : jsonDocs())                                     \
      if (d->text == text) { *out = d->val; return d->ok; }           \
    return false;                                                     \
  }
inline void setStr(pb::Struct* s, const char* k, const Str& v) { (*s->mutable_fields())[k].set_string_value(v); }
inline void setNum(pb::Struct* s, const char* k, double v) { (*s->mutable_fields())[k].set_number_value(v); }

inline Str b64url(const Str& in) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  Str o;
  size_t i = 0, n = in.size();
  auto b = [&](size_t k) { return k < n ? (unsigned)(unsigned char)in[k] : 0u; };
  for (; i < n; i += 3) {
    unsigned v = b(i) << 16 | b(i + 1) << 8 | b(i + 2);
    o += t[v >> 18];
    o += t[v >> 12 & 63];
    if (i + 1 < n) o += t[v >> 6 & 63];
    if (i + 2 < n) o += t[v & 63];
  }
  return o;
}

// ---- algorithms
inline const char* kAlg(int i) {
  static const char* const a[13] = {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "EdDSA"};
  return a[i];
}
enum KeyType { KRSA, KEC256, KEC384, KEC521, KOCT, KOKP };
inline int fam(int alg) { return alg / 3; }  // 0 RS 1 PS 2 ES 3 HS 4 EdDSA
inline int mdBits(int alg) { static const int b[3] = {256, 384, 512}; return alg == 12 ? 0 : b[alg % 3]; }
inline bool fits(int type, int alg) {
  switch (type) {
    case KRSA: return fam(alg) <= 1;
    case KEC256: return alg == 6;
    case KEC384: return alg == 7;
    case KEC521: return alg == 8;
    case KOCT: return fam(alg) == 3;
    default: return alg == 12;
  }
}
inline const int kRsaLen = 32;  // modulus and signature size of the model's RSA keys
inline int sigLen(int type, int alg) {  // required length, 0 = any
  switch (type) {
    case KRSA: return 0;
    case KEC256: return 64;
    case KEC384: return 96;
    case KEC521: return 132;
    case KOCT: return mdBits(alg) / 8;
    default: return 64;
  }
}
inline int nidOf(int type) { return type == KEC256 ? NID_X9_62_prime256v1 : type == KEC384 ? NID_secp384r1 : NID_secp521r1; }
inline const char* crvOf(int type) { return type == KEC256 ? "P-256" : type == KEC384 ? "P-384" : type == KEC521 ? "P-521" : "Ed25519"; }

// ---- keys
struct KeySpec {
  int type = 0, idx = 0;
  Str kid, alg;           // labels; empty = none
  Str a, b;               // n,e / x,y / key
  void material() {
    char c = (char)('1' + idx);
    switch (type) {
      case KRSA: a = Str("N") + c + Str(30, 'n'); b = Str(1, '\3'); break;
      case KOCT: a = Str("O") + c; break;
      case KOKP: a = Str(32, 'Q'); a[0] = c; break;
      default: a = Str("X") + c; b = Str("Y") + c;
    }
  }
  Str rep() const { return type == KRSA ? model_key_rsa(a, b) : type == KOCT || type == KOKP ? a : model_key_ec(nidOf(type), a, b); }
  void toJwk(pb::Struct* s, bool crv = true) const {
    setStr(s, "kty", type == KRSA ? "RSA" : type == KOCT ? "oct" : type == KOKP ? "OKP" : "EC");
    if (!kid.empty()) setStr(s, "kid", kid);
    if (!alg.empty()) setStr(s, "alg", alg);
    switch (type) {
      case KRSA: setStr(s, "n", b64url(a)); setStr(s, "e", b64url(b)); break;
      case KOCT: setStr(s, "k", b64url(a)); break;
      case KOKP: setStr(s, "crv", "Ed25519"); setStr(s, "x", b64url(a)); break;
      default:
        if (crv) setStr(s, "crv", crvOf(type));
        setStr(s, "x", b64url(a)); setStr(s, "y", b64url(b));
    }
  }
  ModelPubKey pub() const {
    ModelPubKey k;
    k.type = type == KRSA ? EVP_PKEY_RSA : type == KOKP ? EVP_PKEY_ED25519 : EVP_PKEY_EC;
    if (type == KRSA) { k.n = a; k.e = b; }
    else if (type == KOKP) k.raw = a;
    else { k.nid = nidOf(type); k.x = a; k.y = b; }
    return k;
  }
  // texts that differ in one character only
  Str pemText() const { return Str("-----BEGIN PUBLIC KEY-----\nMFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAE") + (char)('0' + idx) + "xyzxyzxyzxyzxyzxyz\n-----END PUBLIC KEY-----\n"; }
  Str certText() const { return Str("-----BEGIN CERTIFICATE-----\nMIIDdzCCAl") + (char)('0' + idx) + "xyzxyzxyzx\n-----END CERTIFICATE-----\n"; }
};
inline pb::Struct* addJwk(pb::Struct* doc) { return (*doc->mutable_fields())["keys"].mutable_list_value()->add_values()->mutable_struct_value(); }
inline bool always1(const Str&, const Str&) { return true; }
inline bool always2(int, const Str&, const Str&) { return true; }
inline void keysValid() { model_rsa_check_hook = always1; model_ec_point_hook = always2; }

// ---- tokens: header "H", payload "P"
struct Token {
  int alg = 0;
  Str kid, sig;
  Str hsec = "SA", psec = "UA";
  Jwt jwt;
  Str data() const { return hsec + "." + psec; }
  void make(const char* header = "H") {
    pb::Struct* h = addDoc(header);
    setStr(h, "alg", kAlg(alg));
    if (!kid.empty()) setStr(h, "kid", kid);
    addDoc("P");
    Status s = jwt.parseFromString(hsec + "." + psec + ".UUUU");
    if (s != Status::Ok) sym_fail("a well-formed token parses");
    jwt.signature_ = sig;
  }
};
inline bool kidMatch(const Token& t, const KeySpec& k) { return t.kid.empty() || k.kid.empty() || t.kid == k.kid; }
inline bool algMatch(const Token& t, const KeySpec& k) { return k.alg.empty() || k.alg == kAlg(t.alg); }
// Registers what it means for this key to validate this token and returns
// whether it does.
inline bool genuine(const Token& t, const KeySpec& k) {
  if (!fits(k.type, t.alg)) return false;
  bool v = false;
  int len = sigLen(k.type, t.alg), md = mdBits(t.alg);
  if (k.type == KOCT) {
    struct Tag { int md; Str key, data, tag; };
    static std::vector<Tag*>* known = new std::vector<Tag*>;
    Str tag;
    for (Tag* g : *known) if (g->md == md && g->key == k.rep() && g->data == t.data()) tag = g->tag;
    if (tag.empty()) {
      tag = sym_string(md / 8, "tag");
      model_register_hmac(md, k.rep(), t.data(), tag);
      known->push_back(new Tag{md, k.rep(), t.data(), tag});
    }
    if (tag.size() != t.sig.size()) return false;
    unsigned char d = 0;
    for (size_t i = 0; i < tag.size(); i++) d |= (unsigned char)(tag[i] ^ t.sig[i]);
    return d == 0;
  }
  if (len && (size_t)len != t.sig.size()) return false;
  v = sym_bool("validates");
  switch (k.type) {
    case KRSA: model_register_sig(fam(t.alg) == 0 ? MS_RSA_PKCS1 : MS_RSA_PSS, md, k.rep(), t.data(), t.sig, v); break;
    case KOKP: model_register_sig(MS_ED25519, 0, k.rep(), t.data(), t.sig, v); break;
    default: model_register_sig(MS_ECDSA, md, k.rep(), t.data(), model_sig_ec(t.sig.substr(0, len / 2), t.sig.substr(len / 2)), v);
  }
  return v;
}

// ---- history: other key documents loaded before
inline JwksPtr& kept() { static JwksPtr* p = new JwksPtr; return *p; }
// A text that resembles another: cut, longer, or with one character changed.
inline const char* const kDoc = "{\"keys\":[the entries of some document that has more than sixty characters]}";
inline Str relText(const Str& base, size_t how) {
  Str t = base;
  switch (how) {
    case 0: t.resize(t.size() - 2); break;
    case 1: t += "x"; break;
    case 2: t[2] = '#'; break;
    case 3: t[t.size() - 3] = '#'; break;
  }
  return t;
}
inline void priorLoads(const Str& base = kDoc) {
  static const int ty[4] = {KRSA, KEC384, KOCT, KOKP};
  auto r = model_rsa_check_hook;
  auto e = model_ec_point_hook;
  keysValid();
  int form = sym_choose("prior", 4), how = form == 0 || form == 3 ? (int)sym_choose("prior_text", 4) : 0;
  Str text = relText(base, how);
  pb::Struct* d = addDoc(text, form != 3);
  for (int i = 0; i < 4; i++) {
    KeySpec k;
    k.type = ty[i];
    k.idx = 8;
    k.material();
    k.kid = "k";
    k.toJwk(addJwk(d));
  }
  KeySpec k;
  k.idx = 9;
  k.material();
  model_register_pem(k.pemText(), k.pub());
  model_register_x509(k.certText(), true, k.pub());
  setStr(addDoc("PRIORMAP"), "kid", k.certText());
  JwksPtr p;
  switch (form) {
    case 0: case 3: p = Jwks::createFrom(text, Jwks::JWKS); break;
    case 1: p = Jwks::createFromPem(k.pemText(), "k", "RS256"); break;
    case 2: p = Jwks::createFrom("PRIORMAP", Jwks::JWKS); break;
  }
  if (form % 2 ? how & 1 : sym_choose("keep", 2)) kept() = std::move(p);
  model_rsa_check_hook = r;
  model_ec_point_hook = e;
}
