E={
"src/verify.cc":[
(("bool verifySignatureRSA(RSA* key, const EVP_MD* md, const uint8_t* signature,","bool verifySignatureRSA(RSA* key, const EVP_MD* md, absl::string_view signature"),'''// Drops whatever BoringSSL left in the thread's error queue.
class ErrorQueueCleaner {
 public:
  ~ErrorQueueCleaner() { ERR_clear_error(); }
};

// The SHA-2 digest an "XXnnn" alg stands for.
const EVP_MD* digestOf(const std::string& alg) {
  const absl::string_view bits = absl::string_view(alg).substr(2);
  if (bits == "384") return EVP_sha384();
  if (bits == "512") return EVP_sha512();
  return EVP_sha256();
}

bssl::UniquePtr<EVP_PKEY> wrapRsa(RSA* key) {
  bssl::UniquePtr<EVP_PKEY> pkey(EVP_PKEY_new());
  if (pkey && !EVP_PKEY_set1_RSA(pkey.get(), key)) {
    pkey.reset();
  }
  return pkey;
}

bool verifySignatureRSA(RSA* key, const EVP_MD* md, const uint8_t* signature,
                        size_t signature_len, const uint8_t* signed_data,
                        size_t signed_data_len) {
  if (!key || !md || !signature || !signed_data) return false;
  ErrorQueueCleaner cleaner;
  bssl::UniquePtr<EVP_PKEY> pkey = wrapRsa(key);
  if (!pkey) return false;
  bssl::ScopedEVP_MD_CTX ctx;
  return EVP_DigestVerifyInit(ctx.get(), nullptr, md, nullptr, pkey.get()) &&
         EVP_DigestVerify(ctx.get(), signature, signature_len, signed_data,
                          signed_data_len);
}

'''),
(("  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());\n  if (md_ctx == nullptr) {\n    return false;\n  }\n  std::vector<uint8_t> digest","  if (ECDSA_do_verify("),'''  ErrorQueueCleaner cleaner;
  uint8_t digest[EVP_MAX_MD_SIZE];
  unsigned digest_len = 0;
  if (!EVP_Digest(signed_data, signed_data_len, digest, &digest_len, md,
                  nullptr)) {
    return false;
  }
  bssl::UniquePtr<BIGNUM> r(BN_bin2bn(signature, coord_len, nullptr));
  bssl::UniquePtr<BIGNUM> s(
      BN_bin2bn(signature + coord_len, coord_len, nullptr));
  bssl::UniquePtr<ECDSA_SIG> ecdsa_sig(ECDSA_SIG_new());
  if (!r || !s || !ecdsa_sig ||
      !ECDSA_SIG_set0(ecdsa_sig.get(), r.get(), s.get())) {
    return false;
  }
  // Owned by ecdsa_sig now.
  r.release();
  s.release();

'''),
("  if (ECDSA_do_verify(digest.data(), digest_len, ecdsa_sig.get(), key) == 1) {\n    return true;\n  }\n\n  ERR_clear_error();\n  return false;\n","  return ECDSA_do_verify(digest, digest_len, ecdsa_sig.get(), key) == 1;\n"),
(("  std::vector<uint8_t> out(EVP_MAX_MD_SIZE);","bool verifySignatureOct(absl::string_view key"),'''  ErrorQueueCleaner cleaner;
  bssl::ScopedHMAC_CTX ctx;
  uint8_t mac[EVP_MAX_MD_SIZE] = {};
  unsigned mac_len = 0;
  if (!HMAC_Init_ex(ctx.get(), key, key_len, md, nullptr) ||
      !HMAC_Update(ctx.get(), signed_data, signed_data_len) ||
      !HMAC_Final(ctx.get(), mac, &mac_len)) {
    return false;
  }
  return mac_len == signature_len &&
         CRYPTO_memcmp(mac, signature, mac_len) == 0;
}

'''),
(("Status verifyJwtWithoutTimeChecking(const Jwt&","Status verifyJwt(const Jwt& jwt, const Jwks& jwks) {"),'''namespace {

enum class KeyResult { kNotApplicable, kFailed, kVerified, kBadSignature };

bool isAlgOfFamily(const std::string& alg, const char* family) {
  return alg.rfind(family, 0) == 0;
}

int curveOf(const std::string& alg) {
  if (alg == "ES256") return NID_X9_62_prime256v1;
  if (alg == "ES384") return NID_secp384r1;
  if (alg == "ES512") return NID_secp521r1;
  return NID_undef;
}

KeyResult toResult(bool ok) {
  return ok ? KeyResult::kVerified : KeyResult::kFailed;
}

KeyResult verifyWithKey(const Jwks::Pubkey& jwk, const std::string& alg,
                        const std::string& signature,
                        const std::string& signed_data) {
  if (jwk.kty_ == "RSA") {
    if (isAlgOfFamily(alg, "RS")) {
      return toResult(verifySignatureRSA(jwk.rsa_.get(), digestOf(alg),
                                         signature, signed_data));
    }
    if (isAlgOfFamily(alg, "PS")) {
      return toResult(verifySignatureRSAPSS(jwk.rsa_.get(), digestOf(alg),
                                            signature, signed_data));
    }
    return KeyResult::kNotApplicable;
  }
  if (jwk.kty_ == "EC") {
    const int nid = curveOf(alg);
    if (nid == NID_undef || !isEcKeyOnCurve(jwk.ec_key_.get(), nid)) {
      return KeyResult::kNotApplicable;
    }
    return toResult(verifySignatureEC(jwk.ec_key_.get(), digestOf(alg),
                                      signature, signed_data));
  }
  if (jwk.kty_ == "oct") {
    if (!isAlgOfFamily(alg, "HS")) return KeyResult::kNotApplicable;
    return toResult(verifySignatureOct(jwk.hmac_key_, digestOf(alg), signature,
                                       signed_data));
  }
  if (jwk.kty_ == "OKP" && alg == "EdDSA" && jwk.crv_ == "Ed25519") {
    switch (verifySignatureEd25519(jwk.okp_key_raw_, signature, signed_data)) {
      case Status::Ok:
        return KeyResult::kVerified;
      case Status::JwtEd25519SignatureWrongLength:
        return KeyResult::kBadSignature;
      default:
        return KeyResult::kFailed;
    }
  }
  return KeyResult::kNotApplicable;
}

}  // namespace

Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
  std::string signed_data;
  signed_data.reserve(jwt.header_str_base64url_.size() +
                      jwt.payload_str_base64url_.size() + 1);
  signed_data.append(jwt.header_str_base64url_)
      .append(1, '.')
      .append(jwt.payload_str_base64url_);

  // Select the keys the token may be meant for.
  std::vector<const Jwks::Pubkey*> candidates;
  candidates.reserve(jwks.keys().size());
  for (const auto& key : jwks.keys()) {
    const bool other_kid =
        !(jwt.kid_.empty() || key->kid_.empty()) && jwt.kid_ != key->kid_;
    const bool other_alg = !(key->alg_.empty() || key->alg_ == jwt.alg_);
    if (!other_kid && !other_alg) candidates.push_back(key.get());
  }
  if (candidates.empty()) return Status::JwksKidAlgMismatch;

  for (size_t i = 0; i < candidates.size(); ++i) {
    switch (verifyWithKey(*candidates[i], jwt.alg_, jwt.signature_,
                          signed_data)) {
      case KeyResult::kVerified:
        return Status::Ok;
      case KeyResult::kBadSignature:
        return Status::JwtEd25519SignatureWrongLength;
      case KeyResult::kFailed:
      case KeyResult::kNotApplicable:
        break;
    }
  }
  return Status::JwtVerificationFail;
}

'''),
(("Status verifyJwt(const Jwt& jwt, const Jwks& jwks,\n                 const std::vector<std::string>& audiences, uint64_t now) {","}  // namespace jwt_verify"),'''Status verifyJwt(const Jwt& jwt, const Jwks& jwks,
                 const std::vector<std::string>& audiences, uint64_t now) {
  return CheckAudience(audiences).areAudiencesAllowed(jwt.audiences_)
             ? verifyJwt(jwt, jwks, now)
             : Status::JwtAudienceNotAllowed;
}

'''),
],
"src/jwt.cc":[
(("bool isImplemented(","}  // namespace"),'''bool isImplemented(absl::string_view alg) {
  if (alg == "EdDSA") return true;
  if (alg.size() != 5) return false;
  const absl::string_view family = alg.substr(0, 2);
  const absl::string_view bits = alg.substr(2);
  return (family == "ES" || family == "HS" || family == "RS" ||
          family == "PS") &&
         (bits == "256" || bits == "384" || bits == "512");
}

bool decodeJson(const std::string& text, ::google::protobuf::Struct* out) {
  ::google::protobuf::util::JsonParseOptions options;
  return ::google::protobuf::util::JsonStringToMessage(text, out, options).ok();
}

'''),
(("  // jwt must have exactly 2 dots","  StructUtils header_getter"),'''  const size_t first = jwt_.find('.');
  const size_t second =
      first == std::string::npos ? first : jwt_.find('.', first + 1);
  if (second == std::string::npos ||
      jwt_.find('.', second + 1) != std::string::npos || first == 0 ||
      second == first + 1 || second + 1 == jwt_.size()) {
    return Status::JwtBadFormat;
  }

  header_str_base64url_ = jwt_.substr(0, first);
  if (!absl::WebSafeBase64Unescape(header_str_base64url_, &header_str_)) {
    return Status::JwtHeaderParseErrorBadBase64;
  }
  if (!decodeJson(header_str_, &header_pb_)) {
    return Status::JwtHeaderParseErrorBadJson;
  }

'''),
(("  payload_str_base64url_ = std::string(","  StructUtils payload_getter"),'''  payload_str_base64url_.assign(jwt_, first + 1, second - first - 1);
  if (!absl::WebSafeBase64Unescape(payload_str_base64url_, &payload_str_)) {
    return Status::JwtPayloadParseErrorBadBase64;
  }
  if (!decodeJson(payload_str_, &payload_pb_)) {
    return Status::JwtPayloadParseErrorBadJson;
  }

'''),
("absl::WebSafeBase64Unescape(jwt_split[2], &signature_)","absl::WebSafeBase64Unescape(jwt_.substr(second + 1), &signature_)"),
('#include "absl/container/flat_hash_set.h"\n',''),('#include "absl/strings/str_split.h"\n',''),
(("  auto result = payload_getter.GetUInt64(\"iat\"","  if (payload_getter.GetString(\"jti\""),'''  const auto readTime = [&payload_getter](const std::string& name,
                                          uint64_t& field, Status wrong_type,
                                          Status out_of_range) -> Status {
    uint64_t value = 0;
    const auto code = payload_getter.GetUInt64(name, &value);
    if (code == StructUtils::WRONG_TYPE) return wrong_type;
    if (code == StructUtils::OUT_OF_RANGE) return out_of_range;
    if (code == StructUtils::OK) field = value;
    return Status::Ok;
  };
  Status status = readTime("iat", iat_, Status::JwtPayloadParseErrorIatNotInteger,
                           Status::JwtPayloadParseErrorIatOutOfRange);
  if (status != Status::Ok) return status;
  status = readTime("nbf", nbf_, Status::JwtPayloadParseErrorNbfNotInteger,
                    Status::JwtPayloadParseErrorNbfOutOfRange);
  if (status != Status::Ok) return status;
  status = readTime("exp", exp_, Status::JwtPayloadParseErrorExpNotInteger,
                    Status::JwtPayloadParseErrorExpOutOfRange);
  if (status != Status::Ok) return status;

'''),
(("  // The differences are compared","}  // namespace jwt_verify"),'''  const auto over = [clock_skew](uint64_t a, uint64_t b) {
    return a > b && a - b > clock_skew;
  };
  if (over(nbf_, now)) return Status::JwtNotYetValid;
  return exp_ != 0 && over(now, exp_) ? Status::JwtExpired : Status::Ok;
}

'''),
],
"src/check_audience.cc":[(("std::string sanitizeAudience(","}  // namespace"),'''std::string sanitizeAudience(std::string aud) {
  for (const absl::string_view scheme : {HTTPSchemePrefix, HTTPSSchemePrefix}) {
    if (absl::StartsWith(aud, scheme)) {
      aud.erase(0, scheme.size());
      break;
    }
  }
  if (!aud.empty() && aud.back() == '/') aud.pop_back();
  return aud;
}

'''),
(("  for (const auto& aud : config_audiences) {","}  // namespace jwt"),'''  std::transform(config_audiences.begin(), config_audiences.end(),
                 std::inserter(config_audiences_, config_audiences_.end()),
                 sanitizeAudience);
}

bool CheckAudience::areAudiencesAllowed(
    const std::vector<std::string>& jwt_audiences) const {
  bool allowed = config_audiences_.empty();
  for (auto it = jwt_audiences.cbegin(); !allowed && it != jwt_audiences.cend();
       ++it) {
    allowed = config_audiences_.count(sanitizeAudience(*it)) == 1;
  }
  return allowed;
}

'''),
('#include "absl/strings/match.h"','#include <algorithm>\n#include <iterator>\n\n#include "absl/strings/match.h"')],
"src/struct_utils.cc":[(("StructUtils::FindResult StructUtils::GetString(","StructUtils::FindResult StructUtils::GetUInt64"),'''namespace {
using Value = ::google::protobuf::Value;

// Reads a value of the given kind.
template <class Out, class Get>
StructUtils::FindResult readAs(StructUtils::FindResult lookup, const Value* v,
                               Value::KindCase kind, Get get, Out* out) {
  if (lookup == StructUtils::OK) {
    if (v->kind_case() != kind) return StructUtils::WRONG_TYPE;
    *out = get(*v);
  }
  return lookup;
}
}  // namespace

StructUtils::FindResult StructUtils::GetString(const std::string& name,
                                               std::string* str_value) {
  const Value* found = nullptr;
  const FindResult lookup = GetValue(name, found);
  return readAs(lookup, found, Value::kStringValue,
                [](const Value& v) { return v.string_value(); }, str_value);
}

StructUtils::FindResult StructUtils::GetDouble(const std::string& name,
                                               double* double_value) {
  const Value* found = nullptr;
  const FindResult lookup = GetValue(name, found);
  return readAs(lookup, found, Value::kNumberValue,
                [](const Value& v) { return v.number_value(); }, double_value);
}

'''),
(("  if (!(double_value >= 0) ||","  *int_value ="),'''  if (std::isnan(double_value) || double_value < 0 ||
      double_value >= 18446744073709551616.0) {
    return OUT_OF_RANGE;
  }
'''),
('#include "absl/strings/str_split.h"','#include <cmath>\n\n#include "absl/strings/str_split.h"'),
(("  if (found->kind_case() == google::protobuf::Value::kStringValue) {\n    list->push_back","StructUtils::FindResult StructUtils::GetValue("),'''  switch (found->kind_case()) {
    case Value::kStringValue:
      list->emplace_back(found->string_value());
      return OK;
    case Value::kListValue: {
      const auto& items = found->list_value();
      list->reserve(list->size() + items.values_size());
      for (int i = 0; i != items.values_size(); ++i) {
        if (!items.values(i).has_string_value()) return WRONG_TYPE;
        list->emplace_back(items.values(i).string_value());
      }
      return OK;
    }
    default:
      return WRONG_TYPE;
  }
}

'''),
(("  const std::vector<absl::string_view> name_vector","}  // namespace jwt"),'''  std::vector<std::string> path = absl::StrSplit(nested_names, '.');
  const std::string leaf = std::move(path.back());
  path.pop_back();

  const google::protobuf::Struct* node = &struct_pb_;
  for (const std::string& name : path) {
    const auto it = node->fields().find(name);
    if (it == node->fields().end()) return MISSING;
    if (!it->second.has_struct_value()) return WRONG_TYPE;
    node = &it->second.struct_value();
  }
  const auto it = node->fields().find(leaf);
  if (it == node->fields().end()) return MISSING;
  found = &it->second;
  return OK;
}

''')],
"src/jwks.cc":[
(("Status extractJwkFromJwkRSA(","Status extractJwkFromJwkEC"),'''// Reads a member that has to be there.
Status requireString(StructUtils& getter, const char* name, Status missing,
                     Status bad, std::string* out) {
  switch (getter.GetString(name, out)) {
    case StructUtils::MISSING:
      return missing;
    case StructUtils::WRONG_TYPE:
      return bad;
    default:
      return Status::Ok;
  }
}

bool startsWithAny(const std::string& s,
                   std::initializer_list<const char*> prefixes) {
  for (const char* p : prefixes) {
    if (absl::StartsWith(s, p)) return true;
  }
  return false;
}

Status extractJwkFromJwkRSA(const ::google::protobuf::Struct& jwk_pb,
                            Jwks::Pubkey* jwk) {
  if (!jwk->alg_.empty() && !startsWithAny(jwk->alg_, {"RS", "PS"})) {
    return Status::JwksRSAKeyBadAlg;
  }
  StructUtils getter(jwk_pb);
  std::string n, e;
  Status status = requireString(getter, "n", Status::JwksRSAKeyMissingN,
                                Status::JwksRSAKeyBadN, &n);
  if (status == Status::Ok) {
    status = requireString(getter, "e", Status::JwksRSAKeyMissingE,
                           Status::JwksRSAKeyBadE, &e);
  }
  if (status != Status::Ok) return status;

  KeyGetter key_getter;
  jwk->rsa_ = key_getter.createRsaFromJwk(n, e);
  return key_getter.getStatus();
}

'''),
(("  // If both alg and crv specified, make sure","  std::string x_str;\n  code = jwk_getter.GetString(\"x\", &x_str);\n  if (code == StructUtils::MISSING) {\n    return Status::JwksECKeyMissingX"),'''  struct Curve {
    const char* alg;
    const char* crv;
    int nid;
  };
  static constexpr Curve kCurves[] = {
      {"ES256", "P-256", NID_X9_62_prime256v1},
      {"ES384", "P-384", NID_secp384r1},
      {"ES512", "P-521", NID_secp521r1},
  };
  const bool any = jwk->alg_.empty() && jwk->crv_.empty();
  const Curve* curve = any ? &kCurves[0] : nullptr;
  for (const Curve& c : kCurves) {
    const bool alg_fits = jwk->alg_.empty() || jwk->alg_ == c.alg;
    const bool crv_fits = jwk->crv_.empty() || jwk->crv_ == c.crv;
    if (!any && alg_fits && crv_fits) {
      curve = &c;
    }
  }
  if (curve == nullptr) {
    return jwk->alg_.empty() || jwk->crv_.empty()
               ? Status::JwksECKeyAlgOrCrvUnsupported
               : Status::JwksECKeyAlgNotCompatibleWithCrv;
  }
  const int nid = curve->nid;
  jwk->crv_ = curve->crv;

'''),
(("  std::string key;\n  if (!absl::WebSafe","// The \"OKP\" key type"),'''  if (!absl::WebSafeBase64Unescape(k_str, &jwk->hmac_key_) ||
      jwk->hmac_key_.empty()) {
    return Status::JwksOctBadBase64;
  }
  return Status::Ok;
}

'''),
(("  JwksPtr tmp = Jwks::createFromPem(pkey, kid, alg);","JwksPtr Jwks::createFrom(const"),'''  JwksPtr other = createFromPem(pkey, kid, alg);
  const Status status = other->getStatus();
  if (status == Status::Ok) {
    for (auto& key : other->keys_) {
      keys_.emplace_back(std::move(key));
    }
  }
  return status;
}

'''),
(("  // If alg is a known EC algorithm, set","  return ret;\n}\n\n// pkey_pem must"),'''  static const std::map<std::string, std::string> kCurveOfAlg = {
      {"ES256", "P-256"}, {"ES384", "P-384"}, {"ES512", "P-521"}};
  const auto curve = kCurveOfAlg.find(alg);
  if (curve != kCurveOfAlg.end()) jwk->crv_ = curve->second;
'''),
('#include <iostream>','#include <initializer_list>\n#include <map>'),
(("  for (const auto& kid : jwks_pb.fields()) {\n    Jwks::PubkeyPtr key_ptr","}  // namespace"),'''  std::vector<Jwks::PubkeyPtr> result;
  for (auto it = jwks_pb.fields().begin(); it != jwks_pb.fields().end(); ++it) {
    auto key = absl::make_unique<Jwks::Pubkey>();
    const Status status = extractX509(it->second.string_value(), key.get());
    if (status != Status::Ok) return status;
    key->kid_ = it->first;
    key->kty_ = "RSA";
    result.push_back(std::move(key));
  }
  keys = std::move(result);
  return Status::Ok;
}

'''),
('#include "absl/strings/match.h"','#include "absl/memory/memory.h"\n#include "absl/strings/match.h"'),
],
"src/status.cc":[],
}
L="simple_lru_cache/simple_lru_cache_inl.h"
T="template <class Key, class Value, class MapType, class EQ>\n"
C="SimpleLRUCacheBase<Key, Value, MapType, EQ>::"
E[L]=[
("  void remove(Elem* e);\n\n public:","""  void remove(Elem* e);

  // The entry of "k" in the main table, or nullptr.
  Elem* findLive(const Key& k) const {
    const TableConstIterator iter = table_.find(k);
    return iter == table_.end() ? nullptr : iter->second;
  }

  // The entry of "value" in the deferred list of "k", or nullptr. The oldest
  // one is preferred.
  Elem* findDeferred(const Key& k, const Value* value) const {
    const DeferredTableConstIterator iter = defer_.find(k);
    if (iter == defer_.end()) return nullptr;
    Elem* const head = iter->second;
    for (Elem* e = head->prev;; e = e->prev) {
      if (value == nullptr || e->value == value) return e;
      if (e == head) return nullptr;
    }
  }

  // Calls f for every entry that waits for its last release.
  template <class F>
  void forEachDeferred(F f) const {
    for (const auto& entry : defer_) {
      const Elem* e = entry.second;
      do {
        f(e);
        e = e->prev;
      } while (e != entry.second);
    }
  }

  void releaseDeferred(Elem* e);

 public:"""),
(("  DeferredTableIterator iter = defer_.find(k);\n    if (iter != defer_.end()) {\n      const Elem* const head = iter->second;\n      // Go from","  {  // Not deferred"),"""  if (Elem* e = findDeferred(k, value)) {
      releaseDeferred(e);
      return;
    }
  }
"""),
(("    TableIterator iter = table_.find(k);\n    assert(iter != table_.end());\n    Elem* e = iter->second;\n    assert(e->value == value);","    assert(e->pin > 0);\n    if (lru_ &&"),"""    Elem* const e = findLive(k);
    assert(e != nullptr);
    assert(e->value == value);
"""),
(T+"void "+C+"insertPinned(",T+"void "+C+"releaseDeferred(Elem* e) {\n"+"""  assert(e->pin > 0);
  if (--e->pin > 0) return;
  const auto iter = defer_.find(e->key);
  if (iter->second == e) {
    Elem* const heir = e->prev;
    defer_.erase(iter);
    if (heir != e) defer_.emplace(heir->key, heir);
  }
  e->unlink();
  discard(e);
}

"""+T+"void "+C+"insertPinned("),
(("  TableIterator iter = table_.find(k);\n  if (iter != table_.end()) {\n    // We set last_use_","template <class Key, class Value, class MapType, class EQ>\nvoid SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions"),"""  Elem* const e = findLive(k);
  if (e == nullptr) return nullptr;
  if (e->pin++ == 0) pinned_units_ += e->units;
  // A pinned entry leaves the LRU list, but not the age-based one.
  const bool off_list = lru_ && options.update_eviction_order();
  if (off_list) e->unlink();
  return e->value;
}

"""),
(("  TableIterator table_iter = table_.find(k);\n  if ((table_iter",T+"bool "+C+"stillInUse"),"""  Elem* const live = findLive(k);
  if (live != nullptr && (value == nullptr || live->value == value)) {
    const int64_t delta =
        static_cast<int64_t>(units) - static_cast<int64_t>(live->units);
    live->units = units;
    units_ += delta;
    if (live->pin > 0) pinned_units_ += delta;
  } else if (Elem* const first = findDeferred(k, value)) {
    Elem* e = first;
    do {
      if (value == nullptr || e->value == value) {
        units_ += static_cast<int64_t>(units) - static_cast<int64_t>(e->units);
        e->units = units;
      }
      e = e->next;
    } while (e != first);
  }
  garbageCollect();
}

"""),
(("  TableConstIterator iter = table_.find(k);\n  if ((iter != table_.end()) &&",T+"void "+C+"remove(const Key& k)"),"""  const Elem* const live = findLive(k);
  return (live && (!value || live->value == value)) || inDeferredTable(k, value);
}

"""+T+"bool "+C+"""inDeferredTable(
    const Key& k, const Value* value) const {
  return findDeferred(k, value) != nullptr;
}

"""),
(("  *num_entries = *total_size = 0;",T+"int64_t "+C+"deferredSize"),"""  int64_t n = 0, sum = 0;
  forEachDeferred([&n, &sum](const Elem* e) {
    ++n;
    sum += e->units;
  });
  *num_entries = n;
  *total_size = sum;
}

"""),
(("  for (Elem* e = head_.next; e != &head_;) {\n    Elem* next",T+"void "+C+"clear()"),"""  std::vector<Elem*> victims;
  for (Elem* e = head_.next; e != &head_; e = e->next) {
    if (e->pin == 0) victims.push_back(e);
  }
  for (Elem* e : victims) {
    table_.erase(e->key);
    remove(e);
  }
}

"""),
(("  // For each element: call \"removeElement\" and delete it\n","  // Pinned entries cannot be Discarded"),"""  Table doomed;
  doomed.swap(table_);
  head_.next = head_.prev = &head_;
  while (!doomed.empty()) {
    Elem* const e = doomed.begin()->second;
    doomed.erase(doomed.begin());
    discard(e);
  }
"""),
(("  Elem* e = head_.prev;\n  while (isOverfullInternal() &&","// Not using cycle."),"""  Elem* e = head_.prev;
  while (e != &head_ && isOverfullInternal()) {
    Elem* const victim = e;
    e = e->prev;
    if (victim->pin != 0) continue;
    table_.erase(table_.find(victim->key));
    remove(victim);
  }
}

"""),
(("  if (max_idle < 0) return;\n\n  Elem* e = head_.prev;",T+"void "+C+"countDeferredEntries"),"""  if (max_idle < 0) return;
  const int64_t oldest = SimpleCycleTimer::now() - max_idle;
  for (Elem *e = head_.prev, *prev; e != &head_ && e->last_use_ < oldest;
       e = prev) {
    prev = e->prev;
    if (lru_ && e->pin > 0) continue;
    remove(e->key);
  }
}

"""),
("  if (max_idle_ >= 0) discardIdle(max_idle_);\n","  discardIdle(max_idle_);\n"),
(("    // Another pin took it off the list","      pinned_units_ -= e->units;"),"""  // Another pin took it off the list: back to the place of its last use.
        Elem* place = head_.next;
        while (place != &head_ && place->last_use_ > e->last_use_) {
          place = place->next;
        }
        e->link(place->prev);
      }
"""),
]
