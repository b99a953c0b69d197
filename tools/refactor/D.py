E={
"src/verify.cc":[
("  if (CRYPTO_memcmp(out.data(), signature, signature_len) == 0) {\n    return true;\n  }\n","  // No early exit: the time taken must not depend on where they differ.\n  uint8_t diff = 0;\n  for (size_t i = 0; i < signature_len; ++i) diff |= out[i] ^ signature[i];\n  if (diff == 0) return true;\n"),
(("  if (BN_bin2bn(signature, signature_len / 2, ecdsa_sig->r) == nullptr ||","  if (ECDSA_do_verify("),'''  const uint8_t* half = signature;
  for (BIGNUM* n : {ecdsa_sig->r, ecdsa_sig->s}) {
    if (!BN_bin2bn(half, coord_len, n)) return false;
    half += coord_len;
  }

'''),
(("  for (const auto& jwk : jwks.keys()) {","  // Verification failed."),'''  const std::string& alg = jwt.alg_;
  const char* const kty = alg == "EdDSA"                  ? "OKP"
                          : strncmp(alg.c_str(), "ES", 2) == 0 ? "EC"
                          : strncmp(alg.c_str(), "HS", 2) == 0 ? "oct"
                          : memcmp(alg.c_str(), "RS", 2) == 0 ||
                                  memcmp(alg.c_str(), "PS", 2) == 0
                              ? "RSA"
                              : nullptr;
  const int bits = alg.size() != 5 || alg == "EdDSA" ? 0 : std::strtol(alg.c_str() + 2, nullptr, 10);
  const EVP_MD* const md = bits == 256   ? EVP_sha256()
                           : bits == 384 ? EVP_sha384()
                                         : EVP_sha512();
  auto key_it = jwks.keys().begin();
  const auto last = jwks.keys().end();
  for (; key_it != last; key_it++) {
    const auto* jwk = key_it->get();
    if (!jwt.kid_.empty() && !jwk->kid_.empty() &&
        jwk->kid_.compare(jwt.kid_) != 0) {
      continue;
    }
    if (!jwk->alg_.empty() && jwk->alg_.compare(alg) != 0) continue;
    kid_alg_matched = true;
    if (kty == nullptr || jwk->kty_ != kty) continue;
    if (kty[0] != 'O' && kty[0] != 'R' && bits != 256 && bits != 384 && bits != 512) continue;
    bool verified;
    if (kty[0] == 'R') {
      verified = (alg.front() == 'P' ? static_cast<bool (*)(RSA*, const EVP_MD*, absl::string_view, absl::string_view)>(verifySignatureRSAPSS)
                                     : static_cast<bool (*)(RSA*, const EVP_MD*, absl::string_view, absl::string_view)>(verifySignatureRSA))(
          jwk->rsa_.get(), md, jwt.signature_, signed_data);
    } else if (kty[0] == 'E') {
      const int nid = bits == 256   ? NID_X9_62_prime256v1
                      : bits == 384 ? NID_secp384r1
                                    : NID_secp521r1;
      verified = isEcKeyOnCurve(jwk->ec_key_.get(), nid) &&
                 verifySignatureEC(jwk->ec_key_.get(), md, jwt.signature_,
                                   signed_data);
    } else if (kty[0] == 'o') {
      verified =
          verifySignatureOct(jwk->hmac_key_, md, jwt.signature_, signed_data);
    } else {
      if (jwk->crv_ != "Ed25519") continue;
      const auto status = verifySignatureEd25519(jwk->okp_key_raw_,
                                                 jwt.signature_, signed_data);
      if (status == Status::JwtEd25519SignatureWrongLength) return status;
      verified = status == Status::Ok;
    }
    if (verified) break;
  }
  if (key_it != last) return Status::Ok;

'''),
('#include "absl/strings/string_view.h"','#include <cstring>\n#include <string>\n\n#include "absl/strings/string_view.h"'),
("  return verifyJwt(jwt, jwks, absl::ToUnixSeconds(absl::Now()));","  return verifyJwt(jwt, jwks, absl::ToInt64Seconds(absl::Now() - absl::UnixEpoch()));"),
("  return verifyJwt(jwt, jwks, audiences, absl::ToUnixSeconds(absl::Now()));","  return verifyJwt(jwt, jwks, audiences, static_cast<uint64_t>(absl::ToTimeT(absl::Now())));"),
],
"src/jwt.cc":[
(("  static const absl::flat_hash_set<absl::string_view>","}  // namespace"),'''  static const char* const kAlgs[] = {
      "ES256", "ES384", "ES512", "EdDSA", "HS256", "HS384", "HS512",
      "PS256", "PS384", "PS512", "RS256", "RS384", "RS512",
  };
  return std::binary_search(std::begin(kAlgs), std::end(kAlgs), alg,
                            [](absl::string_view a, absl::string_view b) {
                              return a < b;
                            });
}

'''),
(("  std::vector<absl::string_view> jwt_split =","  // Parse header json"),'''  if (std::count(jwt_.begin(), jwt_.end(), '.') != 2) {
    return Status::JwtBadFormat;
  }
  std::vector<std::string> jwt_split;
  std::istringstream sections(jwt_ + '.');
  for (std::string section; std::getline(sections, section, '.');) {
    if (section.empty()) return Status::JwtBadFormat;
    jwt_split.push_back(section);
  }
  if (jwt_split.size() != 3) return Status::JwtBadFormat;

'''),
('#include <algorithm>\n','#include <algorithm>\n#include <iterator>\n#include <sstream>\n'),
("  header_str_.clear();\n","  for (std::string* s : {&iss_, &sub_, &jti_, &alg_, &kid_, &signature_, &header_str_}) s->erase();\n"),
("  signature_.clear();\n  alg_.clear();\n  kid_.clear();\n  iss_.clear();\n",""),
("  sub_.clear();\n  iat_ = 0;\n  nbf_ = 0;\n  exp_ = 0;\n  jti_.clear();\n","  iat_ = nbf_ = exp_ = uint64_t();\n"),
],
"src/check_audience.cc":[
(("  if (aud.empty()) {","}  // namespace"),'''  size_t begin = 0;
  if (aud.compare(0, HTTPSchemePrefix.size(), HTTPSchemePrefix.data()) == 0) {
    begin = HTTPSchemePrefix.size();
  } else if (aud.compare(0, HTTPSSchemePrefix.size(), HTTPSSchemePrefix.data()) == 0) {
    begin = HTTPSSchemePrefix.size();
  }
  const size_t end = aud.size() > begin && *aud.rbegin() == '/' ? aud.size() - 1 : aud.size();
  return {aud.begin() + begin, aud.begin() + end};
}

'''),
(("  if (config_audiences_.empty()) {\n    return true;","}  // namespace jwt"),'''  if (empty()) return true;
  std::vector<std::string> names;
  names.reserve(jwt_audiences.size());
  for (const std::string& name : jwt_audiences) {
    names.emplace_back(sanitizeAudience(name));
  }
  std::sort(names.begin(), names.end());
  std::vector<std::string> common;
  std::set_intersection(names.begin(), names.end(), config_audiences_.begin(),
                        config_audiences_.end(), std::back_inserter(common));
  return !common.empty();
}

'''),
('#include "absl/strings/match.h"','#include <algorithm>\n#include <iterator>\n\n#include "absl/strings/string_view.h"\n')],
"src/struct_utils.cc":[
(("  const std::vector<absl::string_view> name_vector","}  // namespace jwt"),'''  const std::pair<std::string, std::string> parts =
      absl::StrSplit(nested_names, absl::MaxSplits('.', 1));
  const bool nested = parts.first.size() != nested_names.size();
  const auto it = struct_pb_.fields().find(parts.first);
  if (it == struct_pb_.fields().end()) return MISSING;
  const google::protobuf::Value& value = it->second;
  if (!nested) {
    found = std::addressof(value);
    return OK;
  }
  return value.has_struct_value()
             ? StructUtils(value.struct_value()).GetValue(parts.second, found)
             : WRONG_TYPE;
}

'''),
(("  if (found->kind_case() == google::protobuf::Value::kListValue) {","StructUtils::FindResult StructUtils::GetValue("),'''  if (!found->has_list_value()) return WRONG_TYPE;
  const auto& values = found->list_value().values();
  const bool all = std::all_of(values.begin(), values.end(), [&](const auto& v) {
    if (v.kind_case() != google::protobuf::Value::kStringValue) return false;
    list->push_back(v.string_value());
    return true;
  });
  return all ? OK : WRONG_TYPE;
}

'''),
('#include "absl/strings/str_split.h"','#include <algorithm>\n#include <memory>\n#include <utility>\n\n#include "absl/strings/str_split.h"'),
],
"src/jwks.cc":[
("absl::WebSafeBase64Unescape(x, &x_decoded)","absl::WebSafeBase64Unescape(absl::string_view(x.data(), x.size()), &x_decoded)"),
(("  jwk->bio_.reset(BIO_new(BIO_s_mem()));","  jwk->x509_.reset("),'''  jwk->bio_.reset(BIO_new_mem_buf(key.data(), static_cast<int>(key.size())));
  if (jwk->bio_ == nullptr) {
    return Status::JwksX509BioWriteError;
  }
'''),
(("    const std::string& cert = kid.second.string_value();","  return true;\n}\n\nStatus createFromX509"),'''    const std::string& cert = kid.second.string_value();
    const std::string prefix(kX509CertPrefix), suffix(kX509CertSuffix);
    if (cert.find(prefix) != 0) return false;
    if (cert.size() < suffix.size() ||
        cert.rfind(suffix) != cert.size() - suffix.size()) {
      return false;
    }
  }
'''),
(("  JwksPtr keys(new Jwks());\n  switch","JwksPtr Jwks::createFromPem(const"),'''  auto keys = std::make_unique<Jwks>();
  void (Jwks::*const load)(const std::string&) =
      type == PEM ? &Jwks::createFromPemCore : &Jwks::createFromJwksCore;
  (keys.get()->*load)(pkey);
  return keys;
}

'''),
(("  jwk_getter.GetString(\"kid\", &jwk->kid_);","  return Status::JwksNotImplementedKty"),'''  for (auto member : {std::make_pair("kid", &jwk->kid_),
                      std::make_pair("alg", &jwk->alg_)}) {
    (void)jwk_getter.GetString(member.first, member.second);
  }

  typedef Status (*Extract)(const ::google::protobuf::Struct&, Jwks::Pubkey*);
  const std::vector<std::tuple<std::string, Extract>> extractors{
      std::make_tuple("EC", &extractJwkFromJwkEC),
      std::make_tuple("RSA", &extractJwkFromJwkRSA),
      std::make_tuple("oct", &extractJwkFromJwkOct),
      std::make_tuple("OKP", &extractJwkFromJwkOKP),
  };
  for (const auto& e : extractors) {
    if (std::get<0>(e) == jwk->kty_) return std::get<1>(e)(jwk_pb, jwk);
  }
'''),
('#include <iostream>','#include <memory>\n#include <tuple>\n#include <utility>\n#include <vector>'),
("  keys_.insert(keys_.end(), std::make_move_iterator(tmp->keys_.begin()),\n               std::make_move_iterator(tmp->keys_.end()));","  std::move(tmp->keys_.begin(), tmp->keys_.end(), std::back_inserter(keys_));"),
],
}
L="simple_lru_cache/simple_lru_cache_inl.h"
T="template <class Key, class Value, class MapType, class EQ>\n"
C="SimpleLRUCacheBase<Key, Value, MapType, EQ>::"
E[L]=[
("    return std::chrono::duration_cast<std::chrono::microseconds>(\n               std::chrono::system_clock::now().time_since_epoch())\n        .count();","    const auto now = std::chrono::system_clock::now();\n    return std::chrono::time_point_cast<std::chrono::microseconds>(now)\n        .time_since_epoch()\n        .count();"),
(("    // We set last_use_ upon Release, not during lookup.","  return nullptr;\n}\n\n"+T+"void "+C+"releaseWithOptions"),'''    auto& entry = *iter->second;
    const bool first_pin = entry.pin == 0;
    ++entry.pin;
    if (first_pin) pinned_units_ += entry.units;
    if (!lru_) return entry.value;
    if (options.update_eviction_order()) entry.unlink();
    return entry.value;
  }
'''),
(("      const Elem* const head = iter->second;\n      // Go from oldest","  {  // Not deferred"),'''      Elem* const head = iter->second;
      // Oldest first.
      for (Elem* e = head->prev;; e = e->prev) {
        if (e->value != value) {
          if (e == head) break;
          continue;
        }
        assert(e->pin > 0);
        if (--e->pin != 0) return;
        if (e == head) {
          Elem* const rest = e->prev;
          defer_.erase(iter);
          if (rest != e) defer_.insert(std::make_pair(rest->key, rest));
        }
        e->unlink();
        discard(e);
        return;
      }
    }
  }
'''),
(("  Elem* e = head_.prev;\n  while (isOverfullInternal() && (e != &head_)) {","// Not using cycle."),'''  for (Elem* e = head_.prev; e != &head_ && isOverfullInternal();) {
    Elem* const newer = e->prev;
    if (!e->pin) {
      remove(e->key);
    }
    e = newer;
  }
}

'''),
("  if (!(seconds >= 0) || std::isinf(seconds)) {","  const bool forever = std::isnan(seconds) || seconds < 0 || std::isinf(seconds);\n  if (forever) {"),
(("    if (timeout_cycles >= std::numeric_limits<int64_t>::max()) {","    discardIdle(max_idle_);"),'''    max_idle_ = timeout_cycles >= std::ldexp(1.0, 63)
                    ? std::numeric_limits<int64_t>::max()
                    : static_cast<int64_t>(std::floor(timeout_cycles));
'''),
(("    ScopedLookup(SimpleLRUCacheBase* cache, const Key& key)\n","    ScopedLookup(SimpleLRUCacheBase* cache, const Key& key,\n"),'''    ScopedLookup(SimpleLRUCacheBase* cache, const Key& key)
        : ScopedLookup(cache, key, SimpleLRUCacheOptions()) {}

'''),
("      if (value_ != nullptr) cache_->releaseWithOptions(key_, value_, options_);","      if (!found()) return;\n      cache_->releaseWithOptions(key(), value(), options());"),
("    it_++;\n" if False else "  it_++;\n  if (it_ != end_) {\n    external_view_.first = it_->first;\n    external_view_.second = it_->second->value;\n    last_use_ = it_->second->last_use_;\n  }\n  return *this;","  return *this = SimpleLRUCacheConstIterator(++it_, end_);"),
('#include <cmath>\n','#include <cmath>\n#include <iterator>\n'),
]
