E={
"src/verify.cc":[(("  for (const auto& jwk : jwks.keys()) {","  // Verification failed."),'''  // What each alg asks of a key.
  struct AlgTraits {
    const char* kty;
    const EVP_MD* (*md)();
    int nid;
    bool pss;
  };
  static const absl::flat_hash_map<absl::string_view, AlgTraits> kTraits = {
      {"ES256", {"EC", EVP_sha256, NID_X9_62_prime256v1, false}},
      {"ES384", {"EC", EVP_sha384, NID_secp384r1, false}},
      {"ES512", {"EC", EVP_sha512, NID_secp521r1, false}},
      {"RS256", {"RSA", EVP_sha256, 0, false}},
      {"RS384", {"RSA", EVP_sha384, 0, false}},
      {"RS512", {"RSA", EVP_sha512, 0, false}},
      {"PS256", {"RSA", EVP_sha256, 0, true}},
      {"PS384", {"RSA", EVP_sha384, 0, true}},
      {"PS512", {"RSA", EVP_sha512, 0, true}},
      {"HS256", {"oct", EVP_sha256, 0, false}},
      {"HS384", {"oct", EVP_sha384, 0, false}},
      {"HS512", {"oct", EVP_sha512, 0, false}},
      {"EdDSA", {"OKP", nullptr, 0, false}},
  };
  const auto traits_it = kTraits.find(jwt.alg_);
  const auto matches = [&jwt](const Jwks::Pubkey& jwk) {
    const bool kid_ok =
        jwt.kid_.empty() || jwk.kid_.empty() || jwk.kid_ == jwt.kid_;
    const bool alg_ok = jwk.alg_.empty() || jwk.alg_ == jwt.alg_;
    return kid_ok && alg_ok;
  };
  const auto& keys = jwks.keys();
  for (auto it = std::find_if(keys.begin(), keys.end(),
                              [&](const auto& k) { return matches(*k); });
       it != keys.end();
       it = std::find_if(std::next(it), keys.end(),
                         [&](const auto& k) { return matches(*k); })) {
    const Jwks::Pubkey& jwk = **it;
    kid_alg_matched = true;
    if (traits_it == kTraits.end() || jwk.kty_ != traits_it->second.kty) {
      continue;
    }
    const AlgTraits& traits = traits_it->second;
    bool good = false;
    if (jwk.kty_ == "EC") {
      good = isEcKeyOnCurve(jwk.ec_key_.get(), traits.nid) &&
             verifySignatureEC(jwk.ec_key_.get(), traits.md(), jwt.signature_,
                               signed_data);
    } else if (jwk.kty_ == "RSA") {
      good = traits.pss ? verifySignatureRSAPSS(jwk.rsa_.get(), traits.md(),
                                                jwt.signature_, signed_data)
                        : verifySignatureRSA(jwk.rsa_.get(), traits.md(),
                                             jwt.signature_, signed_data);
    } else if (jwk.kty_ == "oct") {
      good = verifySignatureOct(jwk.hmac_key_, traits.md(), jwt.signature_,
                                signed_data);
    } else if (jwk.crv_ == "Ed25519") {
      const Status status = verifySignatureEd25519(
          jwk.okp_key_raw_, jwt.signature_, signed_data);
      if (status == Status::JwtEd25519SignatureWrongLength) return status;
      good = status == Status::Ok;
    }
    if (good) return Status::Ok;
  }

'''),
('#include "absl/time/clock.h"','#include <algorithm>\n#include <iterator>\n\n#include "absl/container/flat_hash_map.h"\n#include "absl/time/clock.h"'),
(("  std::vector<uint8_t> out(EVP_MAX_MD_SIZE);","bool verifySignatureOct(absl::string_view key"),'''  std::array<uint8_t, EVP_MAX_MD_SIZE> out;
  unsigned int out_len = 0;
  if (!HMAC(md, key, key_len, signed_data, signed_data_len, out.data(),
            &out_len)) {
    ERR_clear_error();
    return false;
  }
  const bool ok = out_len == signature_len &&
                  CRYPTO_memcmp(out.data(), signature, signature_len) == 0;
  if (!ok) ERR_clear_error();
  return ok;
}

'''),
("#include <algorithm>\n","#include <algorithm>\n#include <array>\n"),
],
"src/jwt.cc":[(("  StructUtils payload_getter(payload_pb_);","  // \"aud\" can be"),'''  StructUtils payload_getter(payload_pb_);
  const auto readString = [&](const char* name, std::string* out) {
    return payload_getter.GetString(name, out) != StructUtils::WRONG_TYPE;
  };
  if (!readString("iss", &iss_)) return Status::JwtPayloadParseErrorIssNotString;
  if (!readString("sub", &sub_)) return Status::JwtPayloadParseErrorSubNotString;

  struct NumericClaim {
    const char* name;
    uint64_t Jwt::*field;
    Status not_integer;
    Status out_of_range;
  };
  static const NumericClaim kClaims[] = {
      {"iat", &Jwt::iat_, Status::JwtPayloadParseErrorIatNotInteger,
       Status::JwtPayloadParseErrorIatOutOfRange},
      {"nbf", &Jwt::nbf_, Status::JwtPayloadParseErrorNbfNotInteger,
       Status::JwtPayloadParseErrorNbfOutOfRange},
      {"exp", &Jwt::exp_, Status::JwtPayloadParseErrorExpNotInteger,
       Status::JwtPayloadParseErrorExpOutOfRange},
  };
  for (const NumericClaim& claim : kClaims) {
    switch (payload_getter.GetUInt64(claim.name, &(this->*claim.field))) {
      case StructUtils::WRONG_TYPE:
        return claim.not_integer;
      case StructUtils::OUT_OF_RANGE:
        return claim.out_of_range;
      default:
        break;
    }
  }

  if (!readString("jti", &jti_)) return Status::JwtPayloadParseErrorJtiNotString;

'''),
("  if (now < nbf_ && nbf_ - now > clock_skew) {\n","  const bool early = nbf_ > now && nbf_ - now > clock_skew;\n  if (early) {\n"),
],
"src/check_audience.cc":[(("std::string sanitizeAudience(","}  // namespace"),'''std::string sanitizeAudience(absl::string_view aud) {
  if (!absl::ConsumePrefix(&aud, HTTPSchemePrefix)) {
    absl::ConsumePrefix(&aud, HTTPSSchemePrefix);
  }
  absl::ConsumeSuffix(&aud, "/");
  return std::string(aud);
}

'''),
(("  for (const auto& aud : jwt_audiences) {","}  // namespace jwt"),'''  return std::any_of(jwt_audiences.begin(), jwt_audiences.end(),
                     [this](const std::string& aud) {
                       return config_audiences_.count(sanitizeAudience(aud)) > 0;
                     });
}

'''),
('#include "absl/strings/match.h"','#include <algorithm>\n\n#include "absl/strings/match.h"\n#include "absl/strings/strip.h"')],
"src/struct_utils.cc":[(("  const std::vector<absl::string_view> name_vector","}  // namespace jwt"),'''  const google::protobuf::Struct* current = &struct_pb_;
  absl::string_view rest(nested_names);
  while (true) {
    const size_t dot = rest.find('.');
    const auto it = current->fields().find(std::string(rest.substr(0, dot)));
    if (it == current->fields().end()) return MISSING;
    if (dot == absl::string_view::npos) {
      found = &it->second;
      return OK;
    }
    if (!it->second.has_struct_value()) return WRONG_TYPE;
    current = &it->second.struct_value();
    rest.remove_prefix(dot + 1);
  }
}

''')],
"src/jwks.cc":[
(("  if (jwk->kty_ == \"EC\") {\n    return extractJwkFromJwkEC","  return Status::JwksNotImplementedKty"),'''  using Extractor = Status (*)(const ::google::protobuf::Struct&, Jwks::Pubkey*);
  static const std::unordered_map<std::string, Extractor> kExtractors = {
      {"EC", extractJwkFromJwkEC},
      {"RSA", extractJwkFromJwkRSA},
      {"oct", extractJwkFromJwkOct},
      {"OKP", extractJwkFromJwkOKP},
  };
  const auto extractor = kExtractors.find(jwk->kty_);
  if (extractor != kExtractors.end()) {
    return extractor->second(jwk_pb, jwk);
  }
'''),
(("  for (const auto& key_value : keys_it->second","  if (keys_.empty()) {"),'''  const auto& values = keys_it->second.list_value();
  Status first_error = Status::Ok;
  for (int i = 0; i < values.values_size(); ++i) {
    if (!values.values(i).has_struct_value()) continue;
    auto key_ptr = std::make_unique<Pubkey>();
    const Status status =
        extractJwk(values.values(i).struct_value(), key_ptr.get());
    if (status != Status::Ok) {
      if (first_error == Status::Ok) first_error = status;
      continue;
    }
    keys_.emplace_back(std::move(key_ptr));
  }
  if (keys_.empty()) updateStatus(first_error);

'''),
('#include <assert.h>','#include <assert.h>\n#include <unordered_map>\n#include <memory>'),
(("  for (const auto& kid : jwks_pb.fields()) {\n    if (kid.first.empty()","Status createFromX509"),'''  return std::all_of(
      jwks_pb.fields().begin(), jwks_pb.fields().end(), [](const auto& member) {
        if (member.first.empty() || !member.second.has_string_value()) {
          return false;
        }
        const absl::string_view cert = member.second.string_value();
        return absl::StartsWith(cert, kX509CertPrefix) &&
               absl::EndsWith(cert, kX509CertSuffix);
      });
}

'''),
('#include <unordered_map>','#include <algorithm>\n#include <unordered_map>'),
],
"simple_lru_cache/simple_lru_cache_inl.h":[
(("  TableIterator iter = table_.find(k);\n  if (iter != table_.end()) {\n    Elem* e = iter->second;\n    table_.erase(iter);\n    remove(e);\n  }\n}","template <class Key, class Value, class MapType, class EQ>\nvoid SimpleLRUCacheBase<Key, Value, MapType, EQ>::remove(Elem* e)"),'''  auto node = table_.extract(k);
  if (!node.empty()) remove(node.mapped());
}

'''),
(("  for (TableIterator iter = table_.begin(); iter != table_.end(); ++iter) {\n    remove(iter->second);\n  }","  table_.clear();\n}\n\ntemplate <class Key, class Value, class MapType, class EQ>\nvoid SimpleLRUCacheBase<Key, Value, MapType, EQ>::removeUnpinned"),'''  for (const auto& entry : table_) remove(entry.second);
'''),
(("  Elem* e = head_.prev;\n  while (isOverfullInternal() && (e != &head_)) {","// Not using cycle."),'''  for (Elem *e = head_.prev, *next; isOverfullInternal() && e != &head_;
       e = next) {
    next = e->prev;
    if (e->pin > 0) continue;
    const size_t erased = table_.erase(e->key);
    assert(erased == 1);
    (void)erased;
    e->unlink();
    discard(e);
  }
}

'''),
],
}
