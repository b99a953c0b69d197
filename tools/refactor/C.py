import re
st=open('/repo/src/status.cc').read()
cases=re.findall(r'case Status::(\w+):\s*return\s+((?:"(?:[^"\\]|\\.)*"\s*)+);',st)
tbl=''.join(f'      {{Status::{n}, {" ".join(s.split(chr(10)))}}},\n' for n,s in cases)
E={
"src/status.cc":[(("std::string getStatusString(","}  // namespace jwt_verify"),f'''std::string getStatusString(Status status) {{
  static const std::map<Status, const char*> kMessages = {{
{tbl}  }};
  const auto it = kMessages.find(status);
  return it == kMessages.end() ? std::string() : it->second;
}}

''')],
"src/verify.cc":[
('#include "absl/strings/string_view.h"','#include <functional>\n#include <memory>\n\n#include "absl/strings/str_cat.h"\n#include "absl/strings/string_view.h"'),
(("  bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());\n  if (evp_pkey == nullptr) {\n    return false;\n  }\n  if (EVP_PKEY_set1_RSA","bool verifySignatureRSA(RSA* key, const EVP_MD* md, absl::string_view signature"),'''  uint8_t digest[EVP_MAX_MD_SIZE];
  unsigned digest_len;
  if (!EVP_Digest(signed_data, signed_data_len, digest, &digest_len, md,
                  nullptr) ||
      !RSA_verify(EVP_MD_type(md), digest, digest_len, signature, signature_len,
                  key)) {
    ERR_clear_error();
    return false;
  }
  return true;
}

'''),
(("  std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);","  bssl::UniquePtr<ECDSA_SIG> ecdsa_sig"),'''  std::string digest(EVP_MD_size(md), '\\0');
  unsigned int digest_len = 0;
  auto* const digest_data = reinterpret_cast<uint8_t*>(&digest[0]);
  if (!EVP_DigestInit_ex(md_ctx.get(), md, nullptr) ||
      !EVP_DigestUpdate(md_ctx.get(), signed_data, signed_data_len) ||
      !EVP_DigestFinal_ex(md_ctx.get(), digest_data, &digest_len)) {
    return false;
  }

'''),
("ECDSA_do_verify(digest.data(), digest_len,","ECDSA_do_verify(digest_data, digest.size(),"),
(("Status verifyJwtWithoutTimeChecking(const Jwt&","Status verifyJwt(const Jwt& jwt, const Jwks& jwks) {"),'''namespace {

// Verifies the signature of one token with keys of one kind.
class SignatureVerifier {
 public:
  virtual ~SignatureVerifier() = default;
  virtual bool accepts(const Jwks::Pubkey& key) const = 0;
  virtual Status verify(const Jwks::Pubkey& key, const std::string& signature,
                        const std::string& data) const = 0;

 protected:
  static Status result(bool ok) {
    return ok ? Status::Ok : Status::JwtVerificationFail;
  }
};

class RsaVerifier : public SignatureVerifier {
 public:
  RsaVerifier(const EVP_MD* md, bool pss) : md_(md), pss_(pss) {}
  bool accepts(const Jwks::Pubkey& key) const override {
    return key.kty_ == "RSA";
  }
  Status verify(const Jwks::Pubkey& key, const std::string& signature,
                const std::string& data) const override {
    return result(
        pss_ ? verifySignatureRSAPSS(key.rsa_.get(), md_, signature, data)
             : verifySignatureRSA(key.rsa_.get(), md_, signature, data));
  }

 private:
  const EVP_MD* const md_;
  const bool pss_;
};

class EcVerifier : public SignatureVerifier {
 public:
  EcVerifier(const EVP_MD* md, int nid) : md_(md), nid_(nid) {}
  bool accepts(const Jwks::Pubkey& key) const override {
    return key.kty_ == "EC" && isEcKeyOnCurve(key.ec_key_.get(), nid_);
  }
  Status verify(const Jwks::Pubkey& key, const std::string& signature,
                const std::string& data) const override {
    return result(verifySignatureEC(key.ec_key_.get(), md_, signature, data));
  }

 private:
  const EVP_MD* const md_;
  const int nid_;
};

class HmacVerifier : public SignatureVerifier {
 public:
  explicit HmacVerifier(const EVP_MD* md) : md_(md) {}
  bool accepts(const Jwks::Pubkey& key) const override {
    return key.kty_ == "oct";
  }
  Status verify(const Jwks::Pubkey& key, const std::string& signature,
                const std::string& data) const override {
    return result(verifySignatureOct(key.hmac_key_, md_, signature, data));
  }

 private:
  const EVP_MD* const md_;
};

class EdVerifier : public SignatureVerifier {
 public:
  bool accepts(const Jwks::Pubkey& key) const override {
    return key.kty_ == "OKP" && key.crv_ == "Ed25519";
  }
  Status verify(const Jwks::Pubkey& key, const std::string& signature,
                const std::string& data) const override {
    return verifySignatureEd25519(key.okp_key_raw_, signature, data);
  }
};

std::unique_ptr<SignatureVerifier> makeVerifier(const std::string& alg) {
  if (alg == "EdDSA") return std::make_unique<EdVerifier>();
  if (alg.size() != 5) return nullptr;
  struct Sha {
    std::function<const EVP_MD*()> md;
    int curve;
  };
  static const std::map<std::string, Sha>* const kShas =
      new std::map<std::string, Sha>{
          {"256", {EVP_sha256, NID_X9_62_prime256v1}},
          {"384", {EVP_sha384, NID_secp384r1}},
          {"512", {EVP_sha512, NID_secp521r1}}};
  const auto sha = kShas->find(alg.substr(2));
  if (sha == kShas->end() || alg[1] != 'S') return nullptr;
  const EVP_MD* const md = sha->second.md();
  switch (alg[0]) {
    case 'R':
      return std::make_unique<RsaVerifier>(md, false);
    case 'P':
      return std::make_unique<RsaVerifier>(md, true);
    case 'E':
      return std::make_unique<EcVerifier>(md, sha->second.curve);
    case 'H':
      return std::make_unique<HmacVerifier>(md);
  }
  return nullptr;
}

bool mayUse(const Jwt& jwt, const Jwks::Pubkey& key) {
  if (!key.alg_.empty() && key.alg_ != jwt.alg_) return false;
  return jwt.kid_.empty() || key.kid_.empty() || key.kid_ == jwt.kid_;
}

}  // namespace

Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
  const std::string signed_data = absl::StrCat(
      jwt.header_str_base64url_, ".", jwt.payload_str_base64url_);
  const std::unique_ptr<SignatureVerifier> verifier = makeVerifier(jwt.alg_);
  Status outcome = Status::JwksKidAlgMismatch;
  for (const Jwks::PubkeyPtr& key : jwks.keys()) {
    if (!mayUse(jwt, *key)) continue;
    outcome = Status::JwtVerificationFail;
    if (verifier == nullptr || !verifier->accepts(*key)) continue;
    const Status status = verifier->verify(*key, jwt.signature_, signed_data);
    if (status != Status::JwtVerificationFail) return status;
  }
  return outcome;
}

'''),
('#include <functional>\n','#include <functional>\n#include <map>\n'),
],
"jwt_verify_lib/check_audience.h":[
("#include <set>","#include <unordered_set>"),
("  std::set<std::string> config_audiences_;","  std::unordered_set<std::string> config_audiences_;"),
],
"src/check_audience.cc":[
(("  for (const auto& aud : config_audiences) {","}  // namespace jwt"),'''  config_audiences_.reserve(config_audiences.size());
  for (size_t i = 0, n = config_audiences.size(); i < n; i++) {
    config_audiences_.emplace(sanitizeAudience(config_audiences[i]));
  }
}

bool CheckAudience::areAudiencesAllowed(
    const std::vector<std::string>& jwt_audiences) const {
  return empty() ||
         absl::c_any_of(jwt_audiences, [this](absl::string_view aud) {
           return config_audiences_.find(sanitizeAudience(std::string(aud))) !=
                  config_audiences_.end();
         });
}

'''),
(("  size_t beg_pos = 0;","}  // namespace"),'''  absl::string_view rest = aud;
  if (!absl::ConsumePrefix(&rest, HTTPSchemePrefix)) {
    rest = absl::StripPrefix(rest, HTTPSSchemePrefix);
  }
  return std::string(absl::StripSuffix(rest, "/"));
}

'''),
('#include "absl/strings/match.h"','#include "absl/algorithm/container.h"\n#include "absl/strings/match.h"\n#include "absl/strings/strip.h"')],
"src/jwt.cc":[
(("  static const absl::flat_hash_set<absl::string_view>","}  // namespace"),'''  static const std::set<std::string, std::less<>> implemented_algs = [] {
    std::set<std::string, std::less<>> algs = {"EdDSA"};
    for (const char* family : {"ES", "HS", "RS", "PS"}) {
      for (int bits = 256; bits <= 512; bits += 128) {
        algs.insert(absl::StrCat(family, bits));
      }
    }
    return algs;
  }();
  return implemented_algs.count(alg) != 0;
}

'''),
('#include "absl/container/flat_hash_set.h"\n','#include <functional>\n#include <set>\n\n#include "absl/strings/str_cat.h"\n'),
(("  std::vector<absl::string_view> jwt_split =","  // Parse header json"),'''  std::vector<std::string> jwt_split = absl::StrSplit(jwt_, '.');
  if (jwt_split.size() != 3 ||
      std::any_of(jwt_split.begin(), jwt_split.end(),
                  [](const std::string& s) { return s.empty(); })) {
    return Status::JwtBadFormat;
  }

'''),
("  header_str_base64url_ = std::string(jwt_split[0]);","  header_str_base64url_ = std::move(jwt_split[0]);"),
("  payload_str_base64url_ = std::string(jwt_split[1]);","  payload_str_base64url_.swap(jwt_split[1]);"),
(("Jwt& Jwt::operator=(const Jwt& rhs) {","Status Jwt::parseFromString("),'''Jwt& Jwt::operator=(const Jwt& rhs) {
  if (this == &rhs) return *this;
  header_pb_ = rhs.header_pb_;
  payload_pb_ = rhs.payload_pb_;
  jwt_ = rhs.jwt_;
  header_str_ = rhs.header_str_;
  header_str_base64url_ = rhs.header_str_base64url_;
  payload_str_ = rhs.payload_str_;
  payload_str_base64url_ = rhs.payload_str_base64url_;
  signature_ = rhs.signature_;
  alg_ = rhs.alg_;
  kid_ = rhs.kid_;
  iss_ = rhs.iss_;
  audiences_ = rhs.audiences_;
  sub_ = rhs.sub_;
  iat_ = rhs.iat_;
  nbf_ = rhs.nbf_;
  exp_ = rhs.exp_;
  jti_ = rhs.jti_;
  return *this;
}

'''),
],
"src/struct_utils.cc":[
(("  double double_value;\n  FindResult result = GetDouble(","StructUtils::FindResult StructUtils::GetBoolean"),'''  double number = 0;
  const FindResult result = GetDouble(name, &number);
  if (result != OK) return result;
  const double limit = std::ldexp(1.0, 64);
  if (number >= 0 && number < limit) {
    *int_value = static_cast<uint64_t>(std::trunc(number));
    return OK;
  }
  return OUT_OF_RANGE;
}

'''),
('#include "absl/strings/str_split.h"','#include <cmath>\n#include <list>\n\n#include "absl/strings/str_split.h"'),
("  const std::vector<absl::string_view> name_vector =\n      absl::StrSplit(nested_names, '.');\n","  const std::list<std::string> names = absl::StrSplit(nested_names, '.');\n"),
(("  for (int i = 0; i < name_vector.size(); ++i) {","}  // namespace jwt"),'''  for (auto name = names.begin(); name != names.end(); ++name) {
    const auto& fields = current_struct->fields();
    if (!fields.contains(*name)) return MISSING;
    const auto& value = fields.at(*name);
    if (std::next(name) == names.end()) {
      found = &value;
      return OK;
    }
    if (value.kind_case() != google::protobuf::Value::kStructValue) break;
    current_struct = &value.struct_value();
  }
  return WRONG_TYPE;
}

''')],
"src/jwks.cc":[
(("  switch (EVP_PKEY_id(evp_pkey.get())) {\n    case EVP_PKEY_RSA","#ifndef BORINGSSL_FIPS"),'''  const int key_type = EVP_PKEY_id(evp_pkey.get());
  switch (key_type) {
    case EVP_PKEY_RSA: {
      RSA* const rsa = EVP_PKEY_get0_RSA(evp_pkey.get());
      RSA_up_ref(rsa);
      key_ptr->kty_ = "RSA";
      key_ptr->rsa_.reset(rsa);
    } break;
    case EVP_PKEY_EC:
      key_ptr->kty_ = "EC";
      key_ptr->ec_key_ =
          bssl::UniquePtr<EC_KEY>(EVP_PKEY_get1_EC_KEY(evp_pkey.get()));
      break;
'''),
(("      uint8_t raw_key[ED25519_PUBLIC_KEY_LEN];","      key_ptr->kty_ = \"OKP\";"),'''      std::string& raw_key = key_ptr->okp_key_raw_;
      size_t out_len = ED25519_PUBLIC_KEY_LEN;
      raw_key.resize(out_len);
      if (!EVP_PKEY_get_raw_public_key(
              evp_pkey.get(), reinterpret_cast<uint8_t*>(&raw_key.front()),
              &out_len) ||
          out_len != raw_key.size()) {
        updateStatus(Status::JwksPemGetRawEd25519Error);
        return;
      }
'''),
(("  std::string n_str;\n  auto code","  KeyGetter e;\n  jwk->rsa_"),'''  absl::optional<std::string> members[2];
  static const struct {
    const char* name;
    Status missing, bad;
  } kMembers[2] = {
      {"n", Status::JwksRSAKeyMissingN, Status::JwksRSAKeyBadN},
      {"e", Status::JwksRSAKeyMissingE, Status::JwksRSAKeyBadE},
  };
  for (int i = 0; i < 2; ++i) {
    std::string text;
    const auto code = jwk_getter.GetString(kMembers[i].name, &text);
    if (code == StructUtils::OK) {
      members[i] = std::move(text);
    } else {
      return code == StructUtils::MISSING ? kMembers[i].missing
                                          : kMembers[i].bad;
    }
  }
  const std::string& n_str = *members[0];
  const std::string& e_str = members[1].value();

'''),
('#include "absl/strings/match.h"','#include "absl/strings/match.h"\n#include "absl/types/optional.h"'),
(("  for (const auto& key_value : keys_it->second.list_value().values()) {","  if (keys_.empty()) {\n    updateStatus(Status::JwksNoValid"),'''  const auto& values = keys_it->second.list_value().values();
  std::for_each(values.begin(), values.end(), [this](const auto& value) {
    if (!value.has_struct_value()) return;
    keys_.push_back(std::make_unique<Pubkey>());
    const Status status = extractJwk(value.struct_value(), keys_.back().get());
    if (status != Status::Ok) {
      keys_.pop_back();
      updateStatus(status);
    }
  });

'''),
('#include <iostream>','#include <algorithm>\n#include <memory>'),
],
}
L="simple_lru_cache/simple_lru_cache_inl.h"
T="template <class Key, class Value, class MapType, class EQ>\n"
C="SimpleLRUCacheBase<Key, Value, MapType, EQ>::"
E[L]=[
("  int64_t deferredEntries() const;","  int64_t deferredEntries() const {\n    return countDeferred([](const Elem&) { return int64_t{1}; });\n  }"),
("  int64_t deferredSize() const;","  int64_t deferredSize() const {\n    return countDeferred(\n        [](const Elem& e) { return static_cast<int64_t>(e.units); });\n  }"),
(("  // Count the number and total size of the elements in the deferred","  // Currently in deferred table?"),'''  // Sums f up over the elements in the deferred table.
  template <class F>
  int64_t countDeferred(F f) const {
    int64_t total = 0;
    for (const auto& list : defer_) {
      const Elem* e = list.second;
      do {
        total += f(*e);
      } while ((e = e->next) != list.second);
    }
    return total;
  }

'''),
((T+"void "+C+"countDeferredEntries(",T+"int64_t SimpleLRUCacheBase<Key, Value, MapType,\n                           EQ>::ageOf"),""),
("  bool isOverfullInternal() const {\n    return ((units_ > max_units_) || isOverfull());","  bool isOverfullInternal() const {\n    if (units_ > max_units_) return true;\n    return isOverfull();"),
(("    e->units = units;\n    units_ += e->units;\n    if (e->pin > 0) {\n      pinned_units_ += e->units;\n    }\n  } else {","    const DeferredTableIterator iter"),'''    units_ += units;
    if (e->pin > 0) {
      pinned_units_ += units;
    }
    e->units = units;
  } else {
'''),
(("  // Make new element\n  Elem* e = new","  // If we are in the strict age-based eviction mode, the"),'''  auto owned = std::make_unique<Elem>(k, value, 1, units, SimpleCycleTimer::now());
  Elem* e = owned.get();
  table_.emplace(k, owned.release());
  pinned_units_ += units;
  units_ += units;

'''),
('#include <limits>\n','#include <limits>\n#include <memory>\n#include <vector>\n'),
(("  // For each element: call \"Remove\"\n",T+"void "+C+"removeUnpinned"),'''  std::vector<Elem*> all;
  all.reserve(table_.size());
  for (const_iterator_type it = table_.cbegin(); it != table_.cend(); ++it) {
    all.push_back(it->second);
  }
  table_.clear();
  for (Elem* e : all) remove(e);
}

'''),
("  typedef MapType DeferredTable;","  typedef MapType DeferredTable;\n  using const_iterator_type = typename Table::const_iterator;"),
(("      e->prev = e->next = e;\n      defer_[e->key] = e;\n    } else {","  } else {\n    discard(e);"),'''      e->prev = e;
      e->next = e;
      defer_.insert({e->key, e});
    } else {
      Elem* const head = iter->second;
      Elem* const second = head->next;
      e->prev = head;
      e->next = second;
      head->next = second->prev = e;
    }
'''),
(("    prev->next = next;\n    next->prev = prev;","  void link(Simple"),'''    next->prev = std::exchange(prev, nullptr);
    next->prev->next = next;
    next = nullptr;
  }

'''),
(("    next = head->next;\n    prev = head;","  static const int64_t kNeverUsed = -1;"),'''    SimpleLRUCacheElem* const after = head->next;
    head->next = after->prev = this;
    prev = head;
    next = after;
  }
'''),
(("  const int64_t cycles = SimpleCycleTimer::now() - head_","template <class Key, class Value, class MapType, class EQ>\nint64_t SimpleLRUCacheBase<Key, Value, MapType, EQ>::getLastUseTime"),'''  const int64_t cycles = SimpleCycleTimer::now() - head_.prev->last_use_;
  const std::lldiv_t parts = std::lldiv(cycles, SimpleCycleTimer::frequency());
  return parts.quot * kSecToUsec +
         parts.rem * kSecToUsec / SimpleCycleTimer::frequency();
}

'''),
('#include <cmath>\n','#include <cmath>\n#include <cstdlib>\n'),
]
