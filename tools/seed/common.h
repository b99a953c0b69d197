// Real keys and tokens for the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwt_verify_lib/verify.h"
#include "openssl/bn.h"
#include "openssl/curve25519.h"
#include "openssl/ec.h"
#include "openssl/ecdsa.h"
#include "openssl/err.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/x509.h"
using namespace google::jwt_verify;
typedef std::string Str;
#define CHECK(c) do { if (!(c)) { printf("demo: %s does not hold (line %d)\n", #c, __LINE__); exit(1); } } while (0)
inline Str b64(const Str& s) { Str o; absl::WebSafeBase64Escape(s, &o); return o; }
inline const EVP_MD* mdOf(const Str& alg) { int b = atoi(alg.c_str() + 2); return b == 384 ? EVP_sha384() : b == 512 ? EVP_sha512() : EVP_sha256(); }
inline Str digest(const EVP_MD* md, const Str& d) { uint8_t o[64]; unsigned n; EVP_Digest(d.data(), d.size(), o, &n, md, nullptr); return Str((char*)o, n); }
inline Str bnStr(const BIGNUM* b, size_t n) { Str s(n, 0); BN_bn2bin_padded((uint8_t*)&s[0], n, b); return s; }
inline Str bnStr(const BIGNUM* b) { return bnStr(b, BN_num_bytes(b)); }
struct Key {
  EVP_PKEY* pk = nullptr;
  Str kty, crv, secret, pub, extra;  // extra: further JWK members
  int bytes = 0;
  static Key rsa(int bits = 2048) {
    Key k; k.kty = "RSA"; RSA* r = RSA_new(); BIGNUM* e = BN_new(); BN_set_word(e, 65537); RSA_generate_key_ex(r, bits, e, nullptr);
    k.pk = EVP_PKEY_new(); EVP_PKEY_assign_RSA(k.pk, r); return k;
  }
  static Key ec(int nid) {
    Key k; k.kty = "EC"; EC_KEY* e = EC_KEY_new_by_curve_name(nid); EC_KEY_generate_key(e);
    k.crv = nid == NID_X9_62_prime256v1 ? "P-256" : nid == NID_secp384r1 ? "P-384" : "P-521";
    k.bytes = nid == NID_X9_62_prime256v1 ? 32 : nid == NID_secp384r1 ? 48 : 66;
    k.pk = EVP_PKEY_new(); EVP_PKEY_assign_EC_KEY(k.pk, e); return k;
  }
  static Key oct(const Str& s) { Key k; k.kty = "oct"; k.secret = s; return k; }
  static Key ed() {
    Key k; k.kty = "OKP"; k.crv = "Ed25519"; uint8_t pub[32], priv[64]; ED25519_keypair(pub, priv);
    k.pub = Str((char*)pub, 32); k.secret = Str((char*)priv, 64);
    k.pk = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, pub, 32); return k;
  }
  Str jwk(const Str& kid = "", const Str& alg = "") const {
    Str s = "{\"kty\":\"" + kty + "\"";
    if (!kid.empty()) s += ",\"kid\":\"" + kid + "\"";
    if (!alg.empty()) s += ",\"alg\":\"" + alg + "\"";
    if (kty == "RSA") {
      const BIGNUM *n, *e; RSA_get0_key(EVP_PKEY_get0_RSA(pk), &n, &e, nullptr);
      s += ",\"n\":\"" + b64(bnStr(n)) + "\",\"e\":\"" + b64(bnStr(e)) + "\"";
    } else if (kty == "EC") {
      BIGNUM *x = BN_new(), *y = BN_new(); EC_KEY* e = EVP_PKEY_get0_EC_KEY(pk);
      EC_POINT_get_affine_coordinates_GFp(EC_KEY_get0_group(e), EC_KEY_get0_public_key(e), x, y, nullptr);
      s += ",\"crv\":\"" + crv + "\",\"x\":\"" + b64(bnStr(x, bytes)) + "\",\"y\":\"" + b64(bnStr(y, bytes)) + "\"";
    } else if (kty == "oct") s += ",\"k\":\"" + b64(secret) + "\"";
    else s += ",\"crv\":\"Ed25519\",\"x\":\"" + b64(pub) + "\"";
    return s + extra + "}";
  }
  Str pem() const {
    BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_PUBKEY(b, pk);
    const uint8_t* p; size_t n; BIO_mem_contents(b, &p, &n); Str s((const char*)p, n); BIO_free(b); return s;
  }
  Str cert() const {  // self-signed
    X509* x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 86400);
    X509_set_pubkey(x, pk); X509_sign(x, pk, EVP_sha256());
    BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x);
    const uint8_t* p; size_t n; BIO_mem_contents(b, &p, &n); Str s((const char*)p, n); BIO_free(b); X509_free(x); return s;
  }
  Str sign(const Str& alg, const Str& data) const {
    if (kty == "oct") { uint8_t o[64]; unsigned n; HMAC(mdOf(alg), secret.data(), secret.size(), (const uint8_t*)data.data(), data.size(), o, &n); return Str((char*)o, n); }
    if (kty == "OKP") { Str s(64, 0); ED25519_sign((uint8_t*)&s[0], (const uint8_t*)data.data(), data.size(), (const uint8_t*)secret.data()); return s; }
    if (kty == "EC") {
      Str d = digest(mdOf(alg), data); ECDSA_SIG* g = ECDSA_do_sign((const uint8_t*)d.data(), d.size(), EVP_PKEY_get0_EC_KEY(pk));
      const BIGNUM *r, *s; ECDSA_SIG_get0(g, &r, &s); return bnStr(r, bytes) + bnStr(s, bytes);
    }
    EVP_MD_CTX* c = EVP_MD_CTX_create(); EVP_PKEY_CTX* p; EVP_DigestSignInit(c, &p, mdOf(alg), nullptr, pk);
    if (alg[0] == 'P') { EVP_PKEY_CTX_set_rsa_padding(p, RSA_PKCS1_PSS_PADDING); EVP_PKEY_CTX_set_rsa_mgf1_md(p, mdOf(alg)); EVP_PKEY_CTX_set_rsa_pss_saltlen(p, -1); }
    EVP_DigestSignUpdate(c, data.data(), data.size()); size_t n = 0; EVP_DigestSignFinal(c, nullptr, &n); Str s(n, 0); EVP_DigestSignFinal(c, (uint8_t*)&s[0], &n); s.resize(n); return s;
  }
};
inline Str signedPart(const Str& alg, const Str& kid, const Str& payload) { return b64("{\"alg\":\"" + alg + "\"" + (kid.empty() ? Str() : ",\"kid\":\"" + kid + "\"") + "}") + "." + b64(payload); }
inline Str token(const Key& k, const Str& alg, const Str& kid = "", const Str& payload = "{\"iss\":\"i\"}") { Str d = signedPart(alg, kid, payload); return d + "." + b64(k.sign(alg, d)); }
inline JwksPtr set(const std::vector<Str>& jwks) { Str s; for (auto& j : jwks) s += (s.empty() ? "" : ",") + j; return Jwks::createFrom("{\"keys\":[" + s + "]}", Jwks::JWKS); }
inline Jwt& parsed(const Str& t) { Jwt* j = new Jwt; CHECK(j->parseFromString(t) == Status::Ok); return *j; }
inline Status verify(const Str& t, const Jwks& ks) { Jwt& j = parsed(t); return verifyJwtWithoutTimeChecking(j, ks); }

// f in two threads, one after the other, with nothing that orders them for the race detector
#include <pthread.h>
#include <unistd.h>
inline std::function<void()>& racer() { static std::function<void()> f; return f; }
inline volatile int& racing() { static volatile int v; return v; }
__attribute__((no_sanitize("thread"))) inline void turnWait(int n) { while (racing() != n) usleep(200); }
__attribute__((no_sanitize("thread"))) inline void turnSet(int n) { racing() = n; }
inline void twoThreads(std::function<void()> f) {
  racer() = f;
  pthread_t a, b;
  pthread_create(&a, nullptr, [](void*) -> void* { turnWait(1); racer()(); turnSet(2); turnWait(3); return nullptr; }, nullptr);
  pthread_create(&b, nullptr, [](void*) -> void* { turnWait(2); racer()(); turnSet(3); return nullptr; }, nullptr);
  turnSet(1);
  pthread_join(a, nullptr);
  pthread_join(b, nullptr);
}
