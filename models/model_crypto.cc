#include "model_crypto.h"
#include <cstring>
#include <vector>
#include "openssl/base64.h"
#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/bytestring.h"
#include "openssl/curve25519.h"
#include "openssl/digest.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/err.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/mem.h"
#include "openssl/nid.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"
#include "openssl/x509.h"
#include "sym.h"
typedef std::string Str;
bool (*model_rsa_check_hook)(const Str&, const Str&);
bool (*model_ec_point_hook)(int, const Str&, const Str&);
void (*model_query_hook)(int, int, const Str&, const Str&, const Str&);
int model_err;
int64_t model_crypto_live;
int model_verify_calls;
bool model_faults;
namespace {
template <class T> struct PVec {  // a vector whose storage is not counted as the program's
  T* d = nullptr; size_t n = 0, cap = 0;
  T& operator[](size_t i) { return d[i]; }
  void push(const T& t) {
    if (n == cap) {
      cap = cap ? cap * 2 : 8;
      T* nd = new T[cap];
      for (size_t i = 0; i < n; i++) nd[i] = d[i];
      delete[] d;
      d = nd;
    }
    d[n++] = t;
  }
};
// branch-free equality
bool eqv(const char* a, const char* b, size_t n) {
  unsigned char r = 0;
  for (size_t i = 0; i < n; i++) r |= (unsigned char)a[i] ^ (unsigned char)b[i];
  return r == 0;
}
bool eqs(const Str& a, const Str& b) { return a.size() == b.size() && eqv(a.data(), b.data(), a.size()); }
bool fault() { if (!model_faults) return false; bool f = sym_bool("libfault"); if (f) { model_err++; return true; } return false; }

struct Query { int scheme, md; Str key, data, sig; bool valid; };
PVec<Query> queries;
struct HQuery { int md; Str key, data, tag; };
PVec<HQuery> hmacs;
struct Dig { int md; Str data, out; };
PVec<Dig> digs;
struct Pred { int kind; Str a, b; int nid; bool v; };
PVec<Pred> preds;
struct Doc { Str text; bool x509, has; ModelPubKey k; };
PVec<Doc> docs;

bool query(int scheme, int md, const Str& key, const Str& data, const Str& sig) {
  model_verify_calls++;
  if (model_query_hook) model_query_hook(scheme, md, key, data, sig);
  bool res = false, known = false;
  for (size_t i = 0; i < queries.n; i++) {
    Query& q = queries[i];
    if (q.scheme != scheme || q.md != md || q.key.size() != key.size() || q.data.size() != data.size() || q.sig.size() != sig.size()) continue;
    bool eq = eqs(q.key, key) & eqs(q.data, data) & eqs(q.sig, sig);
    res = known ? res : (eq & q.valid);
    known = known | eq;
  }
  bool r = res;
  bool fresh = sym_bool("sig_other");
  r = known ? res : fresh;
  Query nq{scheme, md, key, data, sig, r};
  queries.push(nq);
  if (!r) model_err++;
  return r;
}
bool pred(int kind, int nid, const Str& a, const Str& b) {
  bool res = false, known = false;
  for (size_t i = 0; i < preds.n; i++) {
    Pred& q = preds[i];
    if (q.kind != kind || q.nid != nid || q.a.size() != a.size() || q.b.size() != b.size()) continue;
    bool eq = eqs(q.a, a) & eqs(q.b, b);
    res = known ? res : (eq & q.v);
    known = known | eq;
  }
  bool fresh = kind == 1 ? (model_rsa_check_hook ? model_rsa_check_hook(a, b) : sym_bool("rsa_ok"))
                         : (model_ec_point_hook ? model_ec_point_hook(nid, a, b) : sym_bool("ec_ok"));
  bool r = known ? res : fresh;
  preds.push(Pred{kind, a, b, nid, r});
  return r;
}

struct MBn { Str v; bool neg = false; };
struct MMd { int id; unsigned len; int nid; };
MMd mds[5] = {{MD_SHA256, 32, NID_sha256}, {MD_SHA384, 48, NID_sha384}, {MD_SHA512, 64, NID_sha512}, {MD_SHA1, 20, NID_sha1}, {MD_SHA224, 28, NID_sha224}};
struct MRsa { int rc = 1; MBn *n = nullptr, *e = nullptr; };
struct MGroup { int nid; unsigned bits; MBn order; };
MGroup* groups[4];
struct MPoint { Str x, y; };
struct MEc { int rc = 1; int nid = 0; MPoint* p = nullptr; };
struct MPkey { int rc = 1; int type = 0; MRsa* rsa = nullptr; MEc* ec = nullptr; Str raw; };
struct MPctx { MPkey* pk = nullptr; int padding = RSA_PKCS1_PADDING; int mgf = -1; int md = 0; int salt = -2; };
struct MCtx { int md = 0; Str data; MPctx* p = nullptr; };
struct MBio { int rc = 1; Str data; bool mem = false; const char* buf = nullptr; size_t len = 0; };
struct MX509 { int rc = 1; size_t doc; };

template <class M> M* mk() { model_crypto_live++; return new M; }
template <class M> void rm(M* m) { model_crypto_live--; delete m; }
MBn* bn(const BIGNUM* b) { return (MBn*)b; }
MRsa* rs(const RSA* b) { return (MRsa*)b; }
MEc* ek(const EC_KEY* b) { return (MEc*)b; }
MPkey* pk(const EVP_PKEY* b) { return (MPkey*)b; }
MPctx* pc(const EVP_PKEY_CTX* b) { return (MPctx*)b; }
MMd* md_(const EVP_MD* m) { return (MMd*)m; }
MBn* mkbn() { return mk<MBn>(); }
void freebn(MBn* b) { if (b) rm(b); }
void freersa(MRsa* r) { if (r && --r->rc == 0) { freebn(r->n); freebn(r->e); rm(r); } }
void freeec(MEc* r) { if (r && --r->rc == 0) { if (r->p) rm(r->p); rm(r); } }
Str pad(const Str& v, size_t n) {
  if (v.size() >= n) return v;
  return Str(n - v.size(), '\0') + v;
}
const size_t kW = 80;
Str keyOf(MPkey* p) {
  if (p->type == EVP_PKEY_RSA && p->rsa && p->rsa->n) return model_key_rsa(p->rsa->n->v, p->rsa->e->v);
  if (p->type == EVP_PKEY_EC && p->ec && p->ec->p) return model_key_ec(p->ec->nid, p->ec->p->x, p->ec->p->y);
  return p->raw;
}
MPkey* mkPkey(const ModelPubKey& k) {
  MPkey* p = mk<MPkey>();
  p->type = k.type;
  if (k.type == EVP_PKEY_RSA) {
    p->rsa = mk<MRsa>(); p->rsa->n = mkbn(); p->rsa->e = mkbn();
    p->rsa->n->v = k.n; p->rsa->e->v = k.e;
  } else if (k.type == EVP_PKEY_EC) {
    p->ec = mk<MEc>(); p->ec->nid = k.nid; p->ec->p = mk<MPoint>();
    p->ec->p->x = k.x; p->ec->p->y = k.y;
  } else p->raw = k.raw;
  return p;
}
// digest bytes are tokens naming (md, data)
const Dig& digest(int md, unsigned len, const Str& data) {
  for (size_t i = 0; i < digs.n; i++) if (digs[i].md == md && digs[i].data.size() == data.size() && eqs(digs[i].data, data)) return digs[i];
  Dig d;
  d.md = md; d.data = data; d.out = Str(len, '\xdd');
  d.out[0] = (char)(0xA0 + digs.n);
  d.out[len - 1] = (char)(md >> 4);
  digs.push(d);
  return digs[digs.n - 1];
}
bool verifyDigest(int scheme, const Str& key, const uint8_t* dg, size_t n, const Str& sig) {
  for (size_t i = 0; i < digs.n; i++)
    if (digs[i].out.size() == n && eqv((const char*)dg, digs[i].out.data(), n)) return query(scheme, digs[i].md, key, digs[i].data, sig);
  return query(scheme, MD_NONE, key, Str((const char*)dg, n), sig);
}
int verifyPk(MPctx* p, const Str& data, const uint8_t* sig, size_t len) {
  MPkey* k = p->pk;
  Str s((const char*)sig, len);
  if (k->type == EVP_PKEY_RSA) {
    if (p->padding == RSA_PKCS1_PADDING) return query(MS_RSA_PKCS1, p->md, keyOf(k), data, s);
    if (p->padding == RSA_PKCS1_PSS_PADDING) {
      int mgf = p->mgf < 0 ? p->md : p->mgf;
      // salt length: automatic, digest-sized and the digest's own size are one predicate
      int hl = p->md == MD_SHA1 ? 20 : p->md / 8;
      bool std_salt = p->salt == -2 || p->salt == -1 || p->salt == hl;
      return query(MS_RSA_PSS + (mgf != p->md ? 100 : 0) + (std_salt ? 0 : 1000), p->md, keyOf(k), data, s);
    }
    return query(200 + p->padding, p->md, keyOf(k), data, s);
  }
  if (k->type == EVP_PKEY_EC) {
    if (len == 2 * kW + 3 && sig[0] == 'D' && sig[1] == 'E' && sig[2] == 'R') return query(MS_ECDSA, p->md, keyOf(k), data, s.substr(3));
    return query(300, p->md, keyOf(k), data, s);
  }
  if (k->type == EVP_PKEY_ED25519 && p->md == MD_NONE) return len == 64 ? query(MS_ED25519, 0, keyOf(k), data, s) : 0;
  return query(400 + k->type, p->md, keyOf(k), data, s);
}
}  // namespace
Str model_key_rsa(const Str& n, const Str& e) { return "R" + pad(n, 0) + "/" + pad(e, 0); }
Str model_key_ec(int nid, const Str& x, const Str& y) { return "E" + Str(1, (char)(nid & 0xff)) + Str(1, (char)(nid >> 8)) + pad(x, kW) + pad(y, kW); }
Str model_rep_rsa(const void* r) { const MRsa* k = (const MRsa*)r; return k && k->n && k->e ? model_key_rsa(k->n->v, k->e->v) : Str(); }
Str model_rep_ec(const void* r) { const MEc* k = (const MEc*)r; return k && k->p ? model_key_ec(k->nid, k->p->x, k->p->y) : Str(); }
Str model_sig_ec(const Str& r, const Str& s) { return pad(r, kW) + pad(s, kW); }
void model_register_sig(int scheme, int md, const Str& key, const Str& data, const Str& sig, bool valid) {
  queries.push(Query{scheme, md, key, data, sig, valid});
}
void model_register_hmac(int md, const Str& key, const Str& data, const Str& tag) { hmacs.push(HQuery{md, key, data, tag}); }
void model_register_pem(const Str& t, const ModelPubKey& k) { Doc d; d.text = t; d.x509 = false; d.has = true; d.k = k; docs.push(d); }
void model_register_x509(const Str& t, bool has, const ModelPubKey& k) { Doc d; d.text = t; d.x509 = true; d.has = has; d.k = k; docs.push(d); }
void model_crypto_reset() {
  queries = PVec<Query>(); hmacs = PVec<HQuery>(); digs = PVec<Dig>(); preds = PVec<Pred>(); docs = PVec<Doc>();
  model_err = 0;
}

extern "C" {
// ------------------------------------------------------------ mem, err
int CRYPTO_memcmp(const void* a, const void* b, size_t n) {
  unsigned char r = 0;
  const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) r |= p[i] ^ q[i];
  return r;
}
void* OPENSSL_malloc(size_t n) { model_crypto_live++; return malloc(n ? n : 1); }
void OPENSSL_free(void* p) { if (p) { model_crypto_live--; free(p); } }
void OPENSSL_cleanse(void* p, size_t n) { memset(p, 0, n); }
void ERR_clear_error(void) { model_err = 0; }
uint32_t ERR_get_error(void) { if (!model_err) return 0; model_err--; return 0x04000001; }
uint32_t ERR_peek_error(void) { return model_err ? 0x04000001 : 0; }
uint32_t ERR_peek_last_error(void) { return model_err ? 0x04000001 : 0; }
void ERR_put_error(int, int, int, const char*, unsigned) { model_err++; }
const char* ERR_reason_error_string(uint32_t) { return "error"; }
const char* ERR_lib_error_string(uint32_t) { return "lib"; }
char* ERR_error_string_n(uint32_t, char* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = i + 1 < n && i < 5 ? "error"[i] : 0; return b; }
int ERR_set_mark(void) { return 1; }
int ERR_pop_to_mark(void) { model_err = 0; return 1; }
// ------------------------------------------------------------ bn
BIGNUM* BN_new(void) { if (fault()) return nullptr; return (BIGNUM*)mkbn(); }
void BN_free(BIGNUM* b) { freebn(bn(b)); }
void BN_clear_free(BIGNUM* b) { freebn(bn(b)); }
BIGNUM* BN_dup(const BIGNUM* b) { if (!b || fault()) return nullptr; MBn* r = mkbn(); r->v = bn(b)->v; return (BIGNUM*)r; }
BIGNUM* BN_bin2bn(const uint8_t* in, size_t n, BIGNUM* ret) {
  if (!ret) { if (fault()) return nullptr; ret = (BIGNUM*)mkbn(); }
  bn(ret)->v.assign((const char*)in, n);
  return ret;
}
int BN_set_word(BIGNUM* b, BN_ULONG w) { Str s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char)(w >> (56 - 8 * i)); bn(b)->v = s; return 1; }
static bool small(const MBn* b, uint64_t* w) {  // fits 64 bits
  uint64_t r = 0; unsigned char hi = 0;
  size_t n = b->v.size();
  for (size_t i = 0; i < n; i++) {
    if (i + 8 < n) hi |= (unsigned char)b->v[i];
    else r = r << 8 | (unsigned char)b->v[i];
  }
  *w = r;
  return hi == 0;
}
int BN_cmp_word(const BIGNUM* b, BN_ULONG w) {
  uint64_t v;
  bool s = small(bn(b), &v);
  return !s ? 1 : v > w ? 1 : v < w ? -1 : 0;
}
int BN_is_word(const BIGNUM* b, BN_ULONG w) { uint64_t v; return small(bn(b), &v) & (v == w); }
int BN_is_zero(const BIGNUM* b) { return BN_is_word(b, 0); }
int BN_is_one(const BIGNUM* b) { return BN_is_word(b, 1); }
int BN_is_odd(const BIGNUM* b) { const Str& v = bn(b)->v; return v.empty() ? 0 : v[v.size() - 1] & 1; }
int BN_is_negative(const BIGNUM* b) { return bn(b)->neg; }
BN_ULONG BN_get_word(const BIGNUM* b) { uint64_t v; return small(bn(b), &v) ? v : (BN_ULONG)-1; }
int BN_get_u64(const BIGNUM* b, uint64_t* out) { return small(bn(b), out); }
unsigned BN_num_bytes(const BIGNUM* b) {
  const Str& v = bn(b)->v;
  for (size_t i = 0; i < v.size(); i++) if (v[i]) return v.size() - i;
  return 0;
}
unsigned BN_num_bits(const BIGNUM* b) {
  unsigned n = BN_num_bytes(b);
  if (!n) return 0;
  unsigned char c = bn(b)->v[bn(b)->v.size() - n];
  unsigned k = 0;
  while (c) { k++; c >>= 1; }
  return (n - 1) * 8 + k;
}
int BN_cmp(const BIGNUM* a, const BIGNUM* b) {
  size_t n = bn(a)->v.size() > bn(b)->v.size() ? bn(a)->v.size() : bn(b)->v.size();
  Str x = pad(bn(a)->v, n), y = pad(bn(b)->v, n);
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (unsigned char)x[i] < (unsigned char)y[i] ? -1 : 1;
  return 0;
}
int BN_ucmp(const BIGNUM* a, const BIGNUM* b) { return BN_cmp(a, b); }
size_t BN_bn2bin(const BIGNUM* b, uint8_t* out) {
  unsigned n = BN_num_bytes(b);
  memcpy(out, bn(b)->v.data() + (bn(b)->v.size() - n), n);
  return n;
}
int BN_bn2bin_padded(uint8_t* out, size_t len, const BIGNUM* b) {
  unsigned n = BN_num_bytes(b);
  if (n > len) return 0;
  memset(out, 0, len - n);
  memcpy(out + (len - n), bn(b)->v.data() + (bn(b)->v.size() - n), n);
  return 1;
}
BN_ULONG BN_mod_word(const BIGNUM* b, BN_ULONG w) {
  if (!w) return (BN_ULONG)-1;
  uint64_t v;
  if (small(bn(b), &v)) return v % w;
  unsigned __int128 r = 0;
  for (char c : bn(b)->v) r = ((r << 8) | (unsigned char)c) % w;
  return (BN_ULONG)r;
}
BIGNUM* BN_copy(BIGNUM* d, const BIGNUM* s) { if (fault()) return nullptr; bn(d)->v = bn(s)->v; bn(d)->neg = bn(s)->neg; return d; }
int BN_abs_is_word(const BIGNUM* b, BN_ULONG w) { return BN_is_word(b, w); }
int BN_is_bit_set(const BIGNUM* b, int n) { const Str& v = bn(b)->v; size_t i = n / 8; return i < v.size() ? ((unsigned char)v[v.size() - 1 - i] >> (n % 8)) & 1 : 0; }
int BN_is_pow2(const BIGNUM* b) { int n = 0; for (char c : bn(b)->v) for (int i = 0; i < 8; i++) n += c >> i & 1; return n == 1; }
// ------------------------------------------------------------ rsa
RSA* RSA_new(void) { if (fault()) return nullptr; return (RSA*)mk<MRsa>(); }
void RSA_free(RSA* r) { freersa(rs(r)); }
int RSA_up_ref(RSA* r) { rs(r)->rc++; return 1; }
int RSA_set0_key(RSA* r, BIGNUM* n, BIGNUM* e, BIGNUM* d) {
  if ((!rs(r)->n && !n) || (!rs(r)->e && !e)) return 0;
  if (fault()) return 0;
  if (n) { freebn(rs(r)->n); rs(r)->n = bn(n); }
  if (e) { freebn(rs(r)->e); rs(r)->e = bn(e); }
  if (d) freebn(bn(d));
  return 1;
}
void RSA_get0_key(const RSA* r, const BIGNUM** n, const BIGNUM** e, const BIGNUM** d) {
  if (n) *n = (BIGNUM*)rs(r)->n;
  if (e) *e = (BIGNUM*)rs(r)->e;
  if (d) *d = nullptr;
}
const BIGNUM* RSA_get0_n(const RSA* r) { return (BIGNUM*)rs(r)->n; }
const BIGNUM* RSA_get0_e(const RSA* r) { return (BIGNUM*)rs(r)->e; }
int RSA_check_key(const RSA* r) {
  if (!rs(r)->n || !rs(r)->e) { model_err++; return 0; }
  bool ok = pred(1, 0, rs(r)->n->v, rs(r)->e->v);
  if (!ok) model_err++;
  return ok;
}
unsigned RSA_size(const RSA* r) { return BN_num_bytes((BIGNUM*)rs(r)->n); }
unsigned RSA_bits(const RSA* r) { return BN_num_bits((BIGNUM*)rs(r)->n); }
static int mdOfNid(int nid) { for (auto& m : mds) if (m.nid == nid) return m.id; return nid + 10000; }
int RSA_verify(int nid, const uint8_t* dg, size_t n, const uint8_t* sig, size_t len, RSA* r) {
  Str k = model_key_rsa(rs(r)->n->v, rs(r)->e->v), s((const char*)sig, len);
  (void)mdOfNid(nid);
  for (size_t i = 0; i < digs.n; i++)
    if (digs[i].out.size() == n && eqv((const char*)dg, digs[i].out.data(), n)) return query(digs[i].md == mdOfNid(nid) ? MS_RSA_PKCS1 : 500, digs[i].md, k, digs[i].data, s);
  return query(501, MD_NONE, k, Str((const char*)dg, n), s);
}
int RSA_verify_pss_mgf1(RSA* r, const uint8_t* dg, size_t n, const EVP_MD* md, const EVP_MD* mgf, int salt, const uint8_t* sig, size_t len) {
  Str k = model_key_rsa(rs(r)->n->v, rs(r)->e->v), s((const char*)sig, len);
  if (!mgf) mgf = md;
  bool std_salt = salt == -2 || salt == -1 || salt == (int)md_(md)->len;
  for (size_t i = 0; i < digs.n; i++)
    if (digs[i].out.size() == n && eqv((const char*)dg, digs[i].out.data(), n))
      return query((digs[i].md == md_(md)->id ? MS_RSA_PSS : 600) + (mgf != md ? 100 : 0) + (std_salt ? 0 : 1000), digs[i].md, k, digs[i].data, s);
  return query(601, MD_NONE, k, Str((const char*)dg, n), s);
}
// ------------------------------------------------------------ ec
static MGroup* grp(int nid) {
  int i = nid == NID_X9_62_prime256v1 ? 0 : nid == NID_secp384r1 ? 1 : nid == NID_secp521r1 ? 2 : nid == NID_secp224r1 ? 3 : -1;
  if (i < 0) return nullptr;
  if (!groups[i]) {
    static const unsigned bits[4] = {256, 384, 521, 224};
    groups[i] = new MGroup;
    groups[i]->nid = nid; groups[i]->bits = bits[i];
    groups[i]->order.v = Str((bits[i] + 7) / 8, '\xff');
    if (i == 2) groups[i]->order.v[0] = 1;
  }
  return groups[i];
}
EC_GROUP* EC_GROUP_new_by_curve_name(int nid) { return (EC_GROUP*)grp(nid); }
void EC_GROUP_free(EC_GROUP*) {}
int EC_GROUP_get_curve_name(const EC_GROUP* g) { return ((MGroup*)g)->nid; }
unsigned EC_GROUP_get_degree(const EC_GROUP* g) { return ((MGroup*)g)->bits; }
int EC_GROUP_order_bits(const EC_GROUP* g) { return ((MGroup*)g)->bits; }
const BIGNUM* EC_GROUP_get0_order(const EC_GROUP* g) { return (BIGNUM*)&((MGroup*)g)->order; }
int EC_GROUP_get_order(const EC_GROUP* g, BIGNUM* o, BN_CTX*) { bn(o)->v = ((MGroup*)g)->order.v; return 1; }
EC_KEY* EC_KEY_new(void) { if (fault()) return nullptr; return (EC_KEY*)mk<MEc>(); }
EC_KEY* EC_KEY_new_by_curve_name(int nid) {
  if (!grp(nid)) { model_err++; return nullptr; }
  if (fault()) return nullptr;
  MEc* k = mk<MEc>();
  k->nid = nid;
  return (EC_KEY*)k;
}
void EC_KEY_free(EC_KEY* k) { freeec(ek(k)); }
int EC_KEY_up_ref(EC_KEY* k) { ek(k)->rc++; return 1; }
const EC_GROUP* EC_KEY_get0_group(const EC_KEY* k) { return (EC_GROUP*)grp(ek(k)->nid); }
const EC_POINT* EC_KEY_get0_public_key(const EC_KEY* k) { return (EC_POINT*)ek(k)->p; }
int EC_KEY_set_group(EC_KEY* k, const EC_GROUP* g) { ek(k)->nid = ((MGroup*)g)->nid; return 1; }
int EC_KEY_check_key(const EC_KEY* k) { return ek(k)->p != nullptr; }
int EC_KEY_set_public_key_affine_coordinates(EC_KEY* k, const BIGNUM* x, const BIGNUM* y) {
  if (!k || !x || !y) { model_err++; return 0; }
  if (!pred(2, ek(k)->nid, bn(x)->v, bn(y)->v)) { model_err++; return 0; }
  if (!ek(k)->p) ek(k)->p = mk<MPoint>();
  ek(k)->p->x = bn(x)->v;
  ek(k)->p->y = bn(y)->v;
  return 1;
}
EC_POINT* EC_POINT_new(const EC_GROUP*) { if (fault()) return nullptr; return (EC_POINT*)mk<MPoint>(); }
void EC_POINT_free(EC_POINT* p) { if (p) rm((MPoint*)p); }
int EC_POINT_set_affine_coordinates_GFp(const EC_GROUP* g, EC_POINT* p, const BIGNUM* x, const BIGNUM* y, BN_CTX*) {
  if (!g || !p || !x || !y || !pred(2, ((MGroup*)g)->nid, bn(x)->v, bn(y)->v)) { model_err++; return 0; }
  ((MPoint*)p)->x = bn(x)->v;
  ((MPoint*)p)->y = bn(y)->v;
  return 1;
}
int EC_POINT_set_affine_coordinates(const EC_GROUP* g, EC_POINT* p, const BIGNUM* x, const BIGNUM* y, BN_CTX* c) { return EC_POINT_set_affine_coordinates_GFp(g, p, x, y, c); }
int EC_POINT_get_affine_coordinates_GFp(const EC_GROUP*, const EC_POINT* p, BIGNUM* x, BIGNUM* y, BN_CTX*) {
  if (x) bn(x)->v = ((MPoint*)p)->x;
  if (y) bn(y)->v = ((MPoint*)p)->y;
  return 1;
}
int EC_POINT_get_affine_coordinates(const EC_GROUP* g, const EC_POINT* p, BIGNUM* x, BIGNUM* y, BN_CTX* c) { return EC_POINT_get_affine_coordinates_GFp(g, p, x, y, c); }
int EC_POINT_is_on_curve(const EC_GROUP*, const EC_POINT*, BN_CTX*) { return 1; }  // no other can be made
int EC_POINT_is_at_infinity(const EC_GROUP*, const EC_POINT*) { return 0; }
int EC_GROUP_cmp(const EC_GROUP* a, const EC_GROUP* b, BN_CTX*) { return ((MGroup*)a)->nid != ((MGroup*)b)->nid; }
int EC_KEY_set_public_key(EC_KEY* k, const EC_POINT* p) {
  if (fault()) return 0;
  if (!ek(k)->p) ek(k)->p = mk<MPoint>();
  *ek(k)->p = *(MPoint*)p;
  return 1;
}
ECDSA_SIG* ECDSA_SIG_new(void) {
  if (fault()) return nullptr;
  model_crypto_live++;
  ECDSA_SIG* s = new ECDSA_SIG;
  s->r = (BIGNUM*)mkbn();
  s->s = (BIGNUM*)mkbn();
  return s;
}
void ECDSA_SIG_free(ECDSA_SIG* s) {
  if (!s) return;
  BN_free(s->r); BN_free(s->s);
  model_crypto_live--;
  delete s;
}
void ECDSA_SIG_get0(const ECDSA_SIG* s, const BIGNUM** r, const BIGNUM** t) { if (r) *r = s->r; if (t) *t = s->s; }
const BIGNUM* ECDSA_SIG_get0_r(const ECDSA_SIG* s) { return s->r; }
const BIGNUM* ECDSA_SIG_get0_s(const ECDSA_SIG* s) { return s->s; }
int ECDSA_SIG_set0(ECDSA_SIG* s, BIGNUM* r, BIGNUM* t) {
  if (!r || !t) return 0;
  BN_free(s->r); BN_free(s->s);
  s->r = r; s->s = t;
  return 1;
}
int ECDSA_SIG_to_bytes(uint8_t** out, size_t* len, const ECDSA_SIG* s) {
  Str v = "DER" + model_sig_ec(bn(s->r)->v, bn(s->s)->v);
  if (v.size() != 2 * kW + 3) { model_err++; return 0; }
  *out = (uint8_t*)OPENSSL_malloc(v.size());
  memcpy(*out, v.data(), v.size());
  *len = v.size();
  return 1;
}
size_t ECDSA_size(const EC_KEY* k) { MGroup* g = grp(ek(k)->nid); return g ? 2 * ((g->bits + 7) / 8) + 8 : 0; }
int ECDSA_do_verify(const uint8_t* dg, size_t n, const ECDSA_SIG* s, const EC_KEY* k) {
  if (!k || !ek(k)->p || !s) { model_err++; return 0; }
  return verifyDigest(MS_ECDSA, model_key_ec(ek(k)->nid, ek(k)->p->x, ek(k)->p->y), dg, n, model_sig_ec(bn(s->r)->v, bn(s->s)->v));
}
int ECDSA_verify(int, const uint8_t* dg, size_t n, const uint8_t* sig, size_t len, const EC_KEY* k) {
  Str key = model_key_ec(ek(k)->nid, ek(k)->p->x, ek(k)->p->y);
  if (len == 2 * kW + 3 && sig[0] == 'D' && sig[1] == 'E' && sig[2] == 'R') return verifyDigest(MS_ECDSA, key, dg, n, Str((const char*)sig + 3, len - 3));
  return verifyDigest(300, key, dg, n, Str((const char*)sig, len));
}
// ------------------------------------------------------------ evp_pkey
EVP_PKEY* EVP_PKEY_new(void) { if (fault()) return nullptr; return (EVP_PKEY*)mk<MPkey>(); }
void EVP_PKEY_free(EVP_PKEY* p) {
  MPkey* k = pk(p);
  if (k && --k->rc == 0) { freersa(k->rsa); freeec(k->ec); rm(k); }
}
int EVP_PKEY_up_ref(EVP_PKEY* p) { pk(p)->rc++; return 1; }
int EVP_PKEY_id(const EVP_PKEY* p) { return pk(p)->type; }
int EVP_PKEY_base_id(const EVP_PKEY* p) { return pk(p)->type; }
int EVP_PKEY_assign_RSA(EVP_PKEY* p, RSA* r) { if (!r) return 0; pk(p)->type = EVP_PKEY_RSA; freersa(pk(p)->rsa); pk(p)->rsa = rs(r); return 1; }
int EVP_PKEY_assign_EC_KEY(EVP_PKEY* p, EC_KEY* r) { if (!r) return 0; pk(p)->type = EVP_PKEY_EC; freeec(pk(p)->ec); pk(p)->ec = ek(r); return 1; }
int EVP_PKEY_set1_RSA(EVP_PKEY* p, RSA* r) { if (!r || fault()) return 0; RSA_up_ref(r); return EVP_PKEY_assign_RSA(p, r); }
int EVP_PKEY_set1_EC_KEY(EVP_PKEY* p, EC_KEY* r) { if (!r || fault()) return 0; EC_KEY_up_ref(r); return EVP_PKEY_assign_EC_KEY(p, r); }
RSA* EVP_PKEY_get0_RSA(const EVP_PKEY* p) { if (pk(p)->type != EVP_PKEY_RSA) { model_err++; return nullptr; } return (RSA*)pk(p)->rsa; }
EC_KEY* EVP_PKEY_get0_EC_KEY(const EVP_PKEY* p) { if (pk(p)->type != EVP_PKEY_EC) { model_err++; return nullptr; } return (EC_KEY*)pk(p)->ec; }
RSA* EVP_PKEY_get1_RSA(const EVP_PKEY* p) { RSA* r = EVP_PKEY_get0_RSA(p); if (r) RSA_up_ref(r); return r; }
EC_KEY* EVP_PKEY_get1_EC_KEY(const EVP_PKEY* p) { EC_KEY* r = EVP_PKEY_get0_EC_KEY(p); if (r) EC_KEY_up_ref(r); return r; }
int EVP_PKEY_get_raw_public_key(const EVP_PKEY* p, uint8_t* out, size_t* len) {
  if (pk(p)->type != EVP_PKEY_ED25519 && pk(p)->type != EVP_PKEY_X25519) { model_err++; return 0; }
  if (!out) { *len = pk(p)->raw.size(); return 1; }
  if (*len < pk(p)->raw.size()) { model_err++; return 0; }
  memcpy(out, pk(p)->raw.data(), pk(p)->raw.size());
  *len = pk(p)->raw.size();
  return 1;
}
EVP_PKEY* EVP_PKEY_new_raw_public_key(int type, ENGINE*, const uint8_t* in, size_t len) {
  if ((type != EVP_PKEY_ED25519 && type != EVP_PKEY_X25519) || len != 32 || fault()) { model_err++; return nullptr; }
  MPkey* p = mk<MPkey>();
  p->type = type;
  p->raw.assign((const char*)in, len);
  return (EVP_PKEY*)p;
}
int EVP_PKEY_size(const EVP_PKEY* p) { return pk(p)->type == EVP_PKEY_RSA ? (int)RSA_size((RSA*)pk(p)->rsa) : pk(p)->type == EVP_PKEY_EC ? (int)ECDSA_size((EC_KEY*)pk(p)->ec) : 64; }
int EVP_PKEY_bits(const EVP_PKEY* p) { return pk(p)->type == EVP_PKEY_EC ? (int)grp(pk(p)->ec->nid)->bits : pk(p)->type == EVP_PKEY_RSA ? (int)BN_num_bits((BIGNUM*)pk(p)->rsa->n) : 253; }
int EVP_PKEY_CTX_set_rsa_padding(EVP_PKEY_CTX* c, int p) { if (!c || pc(c)->pk->type != EVP_PKEY_RSA || fault()) return 0; pc(c)->padding = p; return 1; }
int EVP_PKEY_CTX_set_rsa_mgf1_md(EVP_PKEY_CTX* c, const EVP_MD* m) { if (!c || pc(c)->pk->type != EVP_PKEY_RSA || pc(c)->padding != RSA_PKCS1_PSS_PADDING || fault()) return 0; pc(c)->mgf = md_(m)->id; return 1; }
int EVP_PKEY_CTX_set_rsa_pss_saltlen(EVP_PKEY_CTX* c, int n) { if (!c || pc(c)->pk->type != EVP_PKEY_RSA || pc(c)->padding != RSA_PKCS1_PSS_PADDING) return 0; pc(c)->salt = n; return 1; }
int EVP_PKEY_CTX_set_signature_md(EVP_PKEY_CTX* c, const EVP_MD* m) { pc(c)->md = md_(m)->id; return 1; }
// ------------------------------------------------------------ digests
const EVP_MD* EVP_sha256(void) { return (EVP_MD*)&mds[0]; }
const EVP_MD* EVP_sha384(void) { return (EVP_MD*)&mds[1]; }
const EVP_MD* EVP_sha512(void) { return (EVP_MD*)&mds[2]; }
const EVP_MD* EVP_sha1(void) { return (EVP_MD*)&mds[3]; }
const EVP_MD* EVP_sha224(void) { return (EVP_MD*)&mds[4]; }
size_t EVP_MD_size(const EVP_MD* m) { return md_(m)->len; }
int EVP_MD_type(const EVP_MD* m) { return md_(m)->nid; }
int EVP_MD_nid(const EVP_MD* m) { return md_(m)->nid; }
size_t EVP_MD_block_size(const EVP_MD* m) { return md_(m)->len > 32 ? 128 : 64; }
const EVP_MD* EVP_get_digestbynid(int nid) { for (auto& m : mds) if (m.nid == nid) return (EVP_MD*)&m; return nullptr; }
static MCtx* cx(const EVP_MD_CTX* c) {
  if (!c->md_data) { model_crypto_live++; ((EVP_MD_CTX*)c)->md_data = new MCtx; }
  return (MCtx*)c->md_data;
}
void EVP_MD_CTX_init(EVP_MD_CTX* c) { memset(c, 0, sizeof *c); }
int EVP_MD_CTX_cleanup(EVP_MD_CTX* c) {
  MCtx* m = (MCtx*)c->md_data;
  if (m) {
    if (m->p) { EVP_PKEY_free((EVP_PKEY*)m->p->pk); rm(m->p); }
    rm(m);
  }
  memset(c, 0, sizeof *c);
  return 1;
}
int EVP_MD_CTX_reset(EVP_MD_CTX* c) { return EVP_MD_CTX_cleanup(c); }
EVP_MD_CTX* EVP_MD_CTX_new(void) { if (fault()) return nullptr; model_crypto_live++; EVP_MD_CTX* c = new EVP_MD_CTX; EVP_MD_CTX_init(c); return c; }
EVP_MD_CTX* EVP_MD_CTX_create(void) { return EVP_MD_CTX_new(); }
void EVP_MD_CTX_free(EVP_MD_CTX* c) { if (c) { EVP_MD_CTX_cleanup(c); model_crypto_live--; delete c; } }
void EVP_MD_CTX_destroy(EVP_MD_CTX* c) { EVP_MD_CTX_free(c); }
int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* m, ENGINE*) { if (fault()) return 0; cx(c)->md = md_(m)->id; cx(c)->data.clear(); c->digest = m; return 1; }
int EVP_DigestInit(EVP_MD_CTX* c, const EVP_MD* m) { EVP_MD_CTX_init(c); return EVP_DigestInit_ex(c, m, nullptr); }
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { cx(c)->data.append((const char*)d, n); return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX* c, uint8_t* out, unsigned* len) {
  unsigned l = md_(c->digest)->len;
  const Dig& d = digest(cx(c)->md, l, cx(c)->data);
  memcpy(out, d.out.data(), l);
  if (len) *len = l;
  return 1;
}
int EVP_DigestFinal(EVP_MD_CTX* c, uint8_t* out, unsigned* len) { int r = EVP_DigestFinal_ex(c, out, len); EVP_MD_CTX_cleanup(c); return r; }
int EVP_Digest(const void* d, size_t n, uint8_t* out, unsigned* len, const EVP_MD* m, ENGINE*) {
  const Dig& g = digest(md_(m)->id, md_(m)->len, Str((const char*)d, n));
  memcpy(out, g.out.data(), g.out.size());
  if (len) *len = g.out.size();
  return 1;
}
uint8_t* SHA256(const uint8_t* d, size_t n, uint8_t* out) { EVP_Digest(d, n, out, nullptr, EVP_sha256(), nullptr); return out; }
uint8_t* SHA384(const uint8_t* d, size_t n, uint8_t* out) { EVP_Digest(d, n, out, nullptr, EVP_sha384(), nullptr); return out; }
uint8_t* SHA512(const uint8_t* d, size_t n, uint8_t* out) { EVP_Digest(d, n, out, nullptr, EVP_sha512(), nullptr); return out; }
int EVP_DigestVerifyInit(EVP_MD_CTX* c, EVP_PKEY_CTX** p, const EVP_MD* m, ENGINE*, EVP_PKEY* k) {
  if (!k || pk(k)->type == 0 || fault()) { model_err++; return 0; }
  if ((pk(k)->type == EVP_PKEY_ED25519) != (m == nullptr)) { model_err++; return 0; }
  MCtx* x = cx(c);
  if (!x->p) x->p = mk<MPctx>();
  EVP_PKEY_up_ref(k);
  x->p->pk = pk(k);
  x->p->md = m ? md_(m)->id : 0;
  x->md = x->p->md;
  x->data.clear();
  c->digest = m;
  if (p) *p = (EVP_PKEY_CTX*)x->p;
  return 1;
}
int EVP_DigestVerifyUpdate(EVP_MD_CTX* c, const void* d, size_t n) { if (cx(c)->p->pk->type == EVP_PKEY_ED25519) return 0; cx(c)->data.append((const char*)d, n); return 1; }
int EVP_DigestVerifyFinal(EVP_MD_CTX* c, const uint8_t* s, size_t n) { return verifyPk(cx(c)->p, cx(c)->data, s, n); }
int EVP_DigestVerify(EVP_MD_CTX* c, const uint8_t* s, size_t n, const uint8_t* d, size_t dn) { cx(c)->data.append((const char*)d, dn); return verifyPk(cx(c)->p, cx(c)->data, s, n); }
EVP_PKEY_CTX* EVP_PKEY_CTX_new(EVP_PKEY* k, ENGINE*) { if (!k || fault()) return nullptr; MPctx* p = mk<MPctx>(); EVP_PKEY_up_ref(k); p->pk = pk(k); return (EVP_PKEY_CTX*)p; }
void EVP_PKEY_CTX_free(EVP_PKEY_CTX* c) { if (c) { EVP_PKEY_free((EVP_PKEY*)pc(c)->pk); rm(pc(c)); } }
int EVP_PKEY_verify_init(EVP_PKEY_CTX* c) { return c && !fault(); }
int EVP_PKEY_verify(EVP_PKEY_CTX* c, const uint8_t* s, size_t n, const uint8_t* dg, size_t dn) {
  for (size_t i = 0; i < digs.n; i++)
    if (digs[i].md == pc(c)->md && digs[i].out.size() == dn && eqv((const char*)dg, digs[i].out.data(), dn)) return verifyPk(pc(c), digs[i].data, s, n);
  return query(700, MD_NONE, keyOf(pc(c)->pk), Str((const char*)dg, dn), Str((const char*)s, n));
}
// ------------------------------------------------------------ hmac
static void hmac_(int md, unsigned len, const Str& key, const Str& data, uint8_t* out) {
  model_verify_calls++;
  if (model_query_hook) model_query_hook(MS_HMAC, md, key, data, Str());
  for (size_t i = 0; i < hmacs.n; i++) {
    HQuery& h = hmacs[i];
    if (h.md == md && h.key.size() == key.size() && h.data.size() == data.size() && eqs(h.key, key) && eqs(h.data, data)) {
      memcpy(out, h.tag.data(), len);
      return;
    }
  }
  Str t = sym_string(len, "hmac_other");
  hmacs.push(HQuery{md, key, data, t});
  memcpy(out, t.data(), len);
}
uint8_t* HMAC(const EVP_MD* m, const void* k, size_t kn, const uint8_t* d, size_t n, uint8_t* out, unsigned* len) {
  if (fault()) return nullptr;
  hmac_(md_(m)->id, md_(m)->len, Str((const char*)k, kn), Str((const char*)d, n), out);
  if (len) *len = md_(m)->len;
  return out;
}
void HMAC_CTX_init(HMAC_CTX* c) { memset(c, 0, sizeof *c); }
HMAC_CTX* HMAC_CTX_new(void) { model_crypto_live++; HMAC_CTX* c = new HMAC_CTX; HMAC_CTX_init(c); return c; }
void HMAC_CTX_cleanup(HMAC_CTX* c) { EVP_MD_CTX_cleanup(&c->md_ctx); EVP_MD_CTX_cleanup(&c->i_ctx); memset(c, 0, sizeof *c); }
void HMAC_CTX_reset(HMAC_CTX* c) { HMAC_CTX_cleanup(c); }
void HMAC_CTX_free(HMAC_CTX* c) { if (c) { HMAC_CTX_cleanup(c); model_crypto_live--; delete c; } }
int HMAC_Init_ex(HMAC_CTX* c, const void* k, size_t n, const EVP_MD* m, ENGINE*) { c->md = m; cx(&c->i_ctx)->data.assign((const char*)k, n); cx(&c->md_ctx)->data.clear(); return 1; }
int HMAC_Update(HMAC_CTX* c, const uint8_t* d, size_t n) { cx(&c->md_ctx)->data.append((const char*)d, n); return 1; }
int HMAC_Final(HMAC_CTX* c, uint8_t* out, unsigned* len) {
  hmac_(md_(c->md)->id, md_(c->md)->len, cx(&c->i_ctx)->data, cx(&c->md_ctx)->data, out);
  if (len) *len = md_(c->md)->len;
  return 1;
}
size_t HMAC_size(const HMAC_CTX* c) { return md_(c->md)->len; }
// ------------------------------------------------------------ ed25519
int ED25519_verify(const uint8_t* m, size_t n, const uint8_t sig[64], const uint8_t key[32]) {
  return query(MS_ED25519, 0, Str((const char*)key, 32), Str((const char*)m, n), Str((const char*)sig, 64));
}
// ------------------------------------------------------------ bio, pem, x509
const BIO_METHOD* BIO_s_mem(void) { static int m; return (BIO_METHOD*)&m; }
BIO* BIO_new(const BIO_METHOD*) { if (fault()) return nullptr; MBio* b = mk<MBio>(); b->mem = true; return (BIO*)b; }
BIO* BIO_new_mem_buf(const void* p, ossl_ssize_t n) {
  if (!p || fault()) return nullptr;
  MBio* b = mk<MBio>();
  b->buf = (const char*)p;
  b->len = n < 0 ? strlen((const char*)p) : n;
  return (BIO*)b;
}
int BIO_free(BIO* p) { if (p) rm((MBio*)p); return 1; }
int BIO_write(BIO* p, const void* d, int n) { if (!p || n <= 0) return p ? 0 : -2; ((MBio*)p)->data.append((const char*)d, n); return n; }
int BIO_write_all(BIO* p, const void* d, size_t n) { ((MBio*)p)->data.append((const char*)d, n); return 1; }
int BIO_puts(BIO* p, const char* s) { return BIO_write(p, s, strlen(s)); }
static size_t doc(BIO* p, bool x509) {
  MBio* b = (MBio*)p;
  Str t = b->mem ? b->data : Str(b->buf, b->len);
  for (size_t i = 0; i < docs.n; i++)
    if (docs[i].x509 == x509 && docs[i].text.size() == t.size() && eqs(docs[i].text, t)) return i;
  model_err++;
  return (size_t)-1;
}
EVP_PKEY* PEM_read_bio_PUBKEY(BIO* b, EVP_PKEY** x, pem_password_cb*, void*) {
  size_t i = doc(b, false);
  if (i == (size_t)-1) return nullptr;
  EVP_PKEY* k = (EVP_PKEY*)mkPkey(docs[i].k);
  if (x) *x = k;
  return k;
}
X509* PEM_read_bio_X509(BIO* b, X509** x, pem_password_cb*, void*) {
  if (!b) return nullptr;
  size_t i = doc(b, true);
  if (i == (size_t)-1) return nullptr;
  MX509* c = mk<MX509>();
  c->doc = i;
  if (x) *x = (X509*)c;
  return (X509*)c;
}
void X509_free(X509* x) { MX509* c = (MX509*)x; if (c && --c->rc == 0) rm(c); }
int X509_up_ref(X509* x) { ((MX509*)x)->rc++; return 1; }
EVP_PKEY* X509_get_pubkey(X509* x) {
  Doc& d = docs[((MX509*)x)->doc];
  if (!d.has) { model_err++; return nullptr; }
  return (EVP_PKEY*)mkPkey(d.k);
}
}
