E={
"src/verify.cc":[
(("  // Verify signature\n","    // The same alg must be used."),'''  // Verify signature
  std::string signed_data;
  signed_data.reserve(jwt.header_str_base64url_.size() + 1 +
                      jwt.payload_str_base64url_.size());
  absl::StrAppend(&signed_data, jwt.header_str_base64url_, ".",
                  jwt.payload_str_base64url_);
  std::deque<const Jwks::Pubkey*> candidates;
  for (const auto& jwk : jwks.keys()) {
    if (jwt.kid_.empty() || jwk->kid_.empty() ||
        std::equal(jwt.kid_.begin(), jwt.kid_.end(), jwk->kid_.begin(),
                   jwk->kid_.end())) {
      candidates.push_back(jwk.get());
    }
  }
  bool kid_alg_matched = false;
  for (; !candidates.empty(); candidates.pop_front()) {
    const Jwks::Pubkey* const jwk = candidates.front();
'''),
(("      if (jwt.alg_ == \"ES256\") {\n","      if (isEcKeyOnCurve("),'''      if (std::tie(md, nid) = ecParams(jwt.alg_); md == nullptr) {
        continue;
      }

'''),
("Status verifyJwtWithoutTimeChecking(","""namespace {
std::tuple<const EVP_MD*, int> ecParams(const std::string& alg) {
  if (alg == "ES256") return {EVP_sha256(), NID_X9_62_prime256v1};
  if (alg == "ES384") return {EVP_sha384(), NID_secp384r1};
  if (alg == "ES512") return {EVP_sha512(), NID_secp521r1};
  return std::make_tuple(nullptr, 0);
}
}  // namespace

Status verifyJwtWithoutTimeChecking("""),
(("  if (EVP_DigestInit(md_ctx.get(), md) == 0) {","  bssl::UniquePtr<ECDSA_SIG> ecdsa_sig("),'''  do {
    if (EVP_DigestInit(md_ctx.get(), md) == 0) break;
    if (EVP_DigestUpdate(md_ctx.get(), signed_data, signed_data_len) == 0) break;
    if (EVP_DigestFinal(md_ctx.get(), digest.data(), &digest_len) == 0) break;
  } while (false);
  if (digest_len == 0) {
    return false;
  }

'''),
(("  std::vector<uint8_t> out(EVP_MAX_MD_SIZE);\n  unsigned int out_len = 0;\n  if (HMAC","  ERR_clear_error();\n  return false;\n}\n\nbool verifySignatureOct(absl"),'''  std::array<uint8_t, EVP_MAX_MD_SIZE> out{};
  unsigned int out_len = 0;
  const bool computed = HMAC(md, key, key_len, signed_data, signed_data_len,
                             out.begin(), &out_len) != nullptr;
  if (computed && out_len == signature_len &&
      CRYPTO_memcmp(out.data(), signature, out_len) == 0) {
    return true;
  }
  if (computed && out_len != signature_len) return false;

'''),
('#include "absl/strings/string_view.h"','#include <algorithm>\n#include <array>\n#include <deque>\n#include <tuple>\n\n#include "absl/strings/str_cat.h"\n#include "absl/strings/string_view.h"'),
("  return verifyJwt(jwt, jwks, absl::ToUnixSeconds(absl::Now()));","  const absl::Time now = absl::Now();\n  return verifyJwt(jwt, jwks, static_cast<uint64_t>(absl::ToUnixSeconds(now)));"),
],
"src/jwt.cc":[
(("  static const absl::flat_hash_set<absl::string_view> implemented_algs","}\n\n}  // namespace"),'''  static const std::string sorted[] = {"ES256", "ES384", "ES512", "EdDSA",
                                       "HS256", "HS384", "HS512", "PS256",
                                       "PS384", "PS512", "RS256", "RS384",
                                       "RS512"};
  return std::binary_search(std::begin(sorted), std::end(sorted), alg,
                            [](absl::string_view a, absl::string_view b) { return a < b; });
'''),
(("  std::vector<absl::string_view> jwt_split =","  // Parse header json"),'''  const std::deque<std::string> jwt_split = absl::StrSplit(jwt_, absl::ByChar('.'));
  if (jwt_split.size() != 3 ||
      std::count_if(jwt_split.begin(), jwt_split.end(),
                    std::mem_fn(&std::string::empty)) > 0) {
    return Status::JwtBadFormat;
  }

'''),
("  header_str_base64url_ = std::string(jwt_split[0]);","  header_str_base64url_.assign(jwt_split.front());"),
(("  if (now < nbf_ && nbf_ - now > clock_skew) {","  return Status::Ok;\n}\n\n}"),'''  const auto [earlier, later] = std::minmax(now, nbf_);
  if (later == nbf_ && later - earlier > clock_skew) {
    return Status::JwtNotYetValid;
  }
  // Check JWT has not expired (exp).
  const uint64_t over = exp_ != 0 ? now - std::min(now, exp_) : 0;
  if (over > clock_skew) {
    return Status::JwtExpired;
  }
'''),
(("  result = payload_getter.GetUInt64(\"nbf\", &nbf_);","  if (payload_getter.GetString(\"jti\""),'''  const struct {
    const char* name;
    uint64_t* to;
    Status wrong, range;
  } numbers[] = {
      {"nbf", &nbf_, Status::JwtPayloadParseErrorNbfNotInteger,
       Status::JwtPayloadParseErrorNbfOutOfRange},
      {"exp", &exp_, Status::JwtPayloadParseErrorExpNotInteger,
       Status::JwtPayloadParseErrorExpOutOfRange},
  };
  for (const auto& n : numbers) {
    switch (payload_getter.GetUInt64(n.name, n.to)) {
      case StructUtils::WRONG_TYPE:
        return n.wrong;
      case StructUtils::OUT_OF_RANGE:
        return n.range;
      default:
        break;
    }
  }

'''),
('#include <algorithm>','#include <algorithm>\n#include <deque>\n#include <functional>\n#include <iterator>\n#include <tuple>'),
],
"src/check_audience.cc":[
(("  size_t beg_pos = 0;","  return aud;\n}"),'''  absl::string_view rest = aud;
  if (!absl::ConsumePrefix(&rest, HTTPSchemePrefix)) {
    absl::ConsumePrefix(&rest, HTTPSSchemePrefix);
  }
  absl::ConsumeSuffix(&rest, "/");
  if (rest.size() != aud.size()) return std::string(rest);
'''),
(("  for (const auto& aud : config_audiences) {","}\n\nbool CheckAudience"),'''  std::transform(config_audiences.begin(), config_audiences.end(),
                 std::inserter(config_audiences_, config_audiences_.end()),
                 sanitizeAudience);
'''),
(("  for (const auto& aud : jwt_audiences) {","}\n\n}  // namespace jwt"),'''  return std::accumulate(jwt_audiences.begin(), jwt_audiences.end(), false,
                         [this](bool found, const std::string& aud) {
                           return found || config_audiences_.count(sanitizeAudience(aud)) != 0;
                         });
'''),
('#include "absl/strings/match.h"','#include <algorithm>\n#include <iterator>\n#include <numeric>\n\n#include "absl/strings/match.h"\n#include "absl/strings/strip.h"'),
],
"src/struct_utils.cc":[
(("  const std::vector<absl::string_view> name_vector","}  // namespace jwt"),'''  std::deque<std::string> rest = absl::StrSplit(nested_names, ".");
  std::reference_wrapper<const google::protobuf::Struct> at = struct_pb_;
  while (true) {
    const std::string name = std::move(rest.front());
    rest.pop_front();
    const auto it = at.get().fields().find(name);
    if (it == at.get().fields().end()) return MISSING;
    const auto kind = it->second.kind_case();
    if (rest.empty()) {
      found = &it->second;
      return OK;
    } else if (kind == google::protobuf::Value::kStructValue) {
      at = std::cref(it->second.struct_value());
    } else {
      return WRONG_TYPE;
    }
  }
}

'''),
(("  // Written so that NaN is out of range too.","  *int_value = static_cast<uint64_t>(double_value);"),'''  if (std::isnan(double_value) || std::signbit(double_value - 0.0) ||
      std::isgreaterequal(double_value, std::ldexp(1.0, 64))) {
    if (double_value == 0) {  // minus zero
      *int_value = 0;
      return OK;
    }
    return OUT_OF_RANGE;
  }
'''),
('#include "absl/strings/str_split.h"','#include <cmath>\n#include <deque>\n#include <functional>\n#include <utility>\n\n#include "absl/strings/str_split.h"'),
],
"src/jwks.cc":[
(("  for (const auto& key_value : keys_it->second.list_value().values()) {","}\n\n}  // namespace jwt"),'''  std::vector<const ::google::protobuf::Struct*> entries;
  for (const auto& value : keys_it->second.list_value().values()) {
    if (value.kind_case() == ::google::protobuf::Value::kStructValue) {
      entries.push_back(&value.struct_value());
    }
  }
  std::vector<Status> errors;
  std::vector<PubkeyPtr> loaded;
  for (const auto* entry : entries) {
    std::shared_ptr<Pubkey> unused;
    auto key = std::make_unique<Pubkey>();
    if (const Status s = extractJwk(*entry, key.get()); s == Status::Ok) {
      loaded.push_back(std::move(key));
    } else {
      errors.push_back(s);
    }
  }
  std::swap(keys_, loaded);
  if (!keys_.empty()) {
    resetStatus(Status::Ok);
  } else if (errors.empty()) {
    updateStatus(Status::JwksNoValidKeys);
  } else {
    updateStatus(errors.front());
  }
'''),
(("  if (jwks_pb.fields().empty()) {\n    return false;","Status createFromX509"),'''  const auto& fields = jwks_pb.fields();
  const auto bad = [](const auto& member) {
    if (member.first.empty() || !member.second.has_string_value()) return true;
    const absl::string_view text = member.second.string_value();
    return !(absl::StartsWith(text, kX509CertPrefix) &&
             absl::EndsWith(text, kX509CertSuffix));
  };
  return !fields.empty() && std::none_of(fields.begin(), fields.end(), bad);
}

'''),
(("  for (const auto& kid : jwks_pb.fields()) {\n    Jwks::PubkeyPtr","}\n\n}  // namespace\n\nStatus Jwks::addKeyFromPem"),'''  std::vector<Jwks::PubkeyPtr> loaded;
  for (const auto& [name, value] : jwks_pb.fields()) {
    loaded.emplace_back(new Jwks::Pubkey());
    Jwks::Pubkey& key = *loaded.back();
    const Status status = extractX509(value.string_value(), &key);
    if (status != Status::Ok) {
      return status;
    }
    std::tie(key.kid_, key.kty_) = std::make_tuple(name, std::string("RSA"));
  }
  keys.swap(loaded);
  return Status::Ok;
'''),
(("  // If alg is a known EC algorithm, set the correct crv as well.","  return ret;\n}\n\n// pkey_pem must"),'''  static const std::map<std::string, std::string> curves = {
      {"ES256", "P-256"}, {"ES384", "P-384"}, {"ES512", "P-521"}};
  if (const auto it = curves.find(alg); it != curves.end()) {
    jwk->crv_ = it->second;
  }
'''),
(("  // If both alg and crv specified, make sure they match","  std::string x_str;\n  code = jwk_getter.GetString(\"x\", &x_str);\n  if (code == StructUtils::MISSING) {\n    return Status::JwksECKeyMissingX"),'''  struct Curve {
    absl::string_view alg, crv;
    int nid;
  };
  static constexpr std::array<Curve, 3> kCurves{{{"ES256", "P-256", NID_X9_62_prime256v1},
                                              {"ES384", "P-384", NID_secp384r1},
                                              {"ES512", "P-521", NID_secp521r1}}};
  auto curve = kCurves.begin();
  if (!jwk->alg_.empty() || !jwk->crv_.empty()) {
    curve = std::find_if(kCurves.begin(), kCurves.end(), [jwk](const Curve& c) {
      return (jwk->alg_.empty() || jwk->alg_ == c.alg) &&
             (jwk->crv_.empty() || jwk->crv_ == c.crv);
    });
    if (curve == kCurves.end()) {
      return jwk->alg_.empty() || jwk->crv_.empty()
                 ? Status::JwksECKeyAlgOrCrvUnsupported
                 : Status::JwksECKeyAlgNotCompatibleWithCrv;
    }
  }
  const int nid = curve->nid;
  jwk->crv_ = std::string(curve->crv);

'''),
('#include <iostream>','#include <algorithm>\n#include <array>\n#include <map>\n#include <memory>\n#include <tuple>\n#include <utility>\n#include <vector>'),
],
}
L="simple_lru_cache/simple_lru_cache_inl.h"
T="template <class Key, class Value, class MapType, class EQ>\n"
C="SimpleLRUCacheBase<Key, Value, MapType, EQ>::"
E[L]=[
(("  for (Elem* e = head_.next; e != &head_;) {\n    Elem* next","template <class Key, class Value, class MapType, class EQ>\nvoid SimpleLRUCacheBase<Key, Value, MapType, EQ>::clear()"),'''  std::vector<Elem*> unpinned;
  for (Elem* e = head_.next; e != &head_; e = e->next) {
    if (e->pin == 0) unpinned.push_back(e);
  }
  for (Elem* e : unpinned) {
    table_.erase(e->key);
    remove(e);
  }
}

'''),
(("  // For each element: call \"Remove\"","template <class Key, class Value, class MapType, class EQ>\nvoid SimpleLRUCacheBase<Key, Value, MapType, EQ>::removeUnpinned()"),'''  Table old;
  using std::swap;
  swap(old, table_);
  for (const auto& entry : old) remove(entry.second);
}

'''),
(("  TableIterator table_iter = table_.find(k);\n  if ((table_iter","  garbageCollect();\n}\n\ntemplate <class Key, class Value, class MapType, class EQ>\nbool SimpleLRUCacheBase<Key, Value, MapType, EQ>::stillInUse("),'''  const auto matches = [value](const Elem* e) { return value == nullptr || e->value == value; };
  const auto resize = [this, units](Elem* e, bool pinned) {
    const int64_t delta = static_cast<int64_t>(units) - static_cast<int64_t>(e->units);
    units_ += delta;
    if (pinned) pinned_units_ += delta;
    e->units = units;
  };
  const TableIterator it = table_.find(k);
  if (it != table_.end() && matches(it->second)) {
    resize(it->second, it->second->pin > 0);
  } else if (const auto d = defer_.find(k); d != defer_.end()) {
    Elem* e = d->second;
    do {
      if (matches(e)) resize(e, false);
      e = e->next;
    } while (e != d->second);
  }
'''),
(("  if (head_.prev == &head_) return 0;","template <class Key, class Value, class MapType, class EQ>\nint64_t SimpleLRUCacheBase<Key, Value, MapType, EQ>::getLastUseTime("),'''  const Elem* const oldest = head_.prev;
  if (oldest == &head_) return 0;
  static_assert(1000000 % kSecToUsec == 0 || kSecToUsec > 0, "");
  const auto q = std::lldiv(SimpleCycleTimer::now() - oldest->last_use_,
                            SimpleCycleTimer::frequency());
  return q.quot * kSecToUsec + q.rem * kSecToUsec / SimpleCycleTimer::frequency();
}

'''),
("    std::stringstream ss;\n    ss << pinnedSize() << \"/\" << deferredSize() << \"/\" << size() << \" p/d/a\";\n    return ss.str();","    return std::to_string(pinnedSize()) + \"/\" + std::to_string(deferredSize()) + \"/\" +\n           std::to_string(size()) + \" p/d/a\";"),
(("  std::stringstream ss;\n  ss << \"SimpleLRUCache of \"","  for (TableConstIterator iter = table_.begin(); iter != table_.end(); ++iter) {\n    const Elem* e = iter->second;\n    debugIterator("),'''  output->append("SimpleLRUCache of ").append(std::to_string(table_.size()))
      .append(" elements plus ").append(std::to_string(deferredEntries()))
      .append(" deferred elements (").append(std::to_string(size()))
      .append(" units, ").append(std::to_string(maxSize())).append(" max units)");
'''),
("    if (max_idle_ >= 0) discardIdle(max_idle_);","    if (max_idle_ < 0) {\n      return;\n    }\n    discardIdle(max_idle_);"),
]
