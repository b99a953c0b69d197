# The clock read another way, lookups by cursor, tables of required members.
E={
"src/verify.cc":[
("Status verifyJwt(const Jwt& jwt, const Jwks& jwks) {\n  return verifyJwt(jwt, jwks, absl::ToUnixSeconds(absl::Now()));",
'''namespace {
uint64_t secondsNow() {
  const auto since = std::chrono::system_clock::now().time_since_epoch();
  return std::chrono::duration_cast<std::chrono::seconds>(since).count();
}
}  // namespace

Status verifyJwt(const Jwt& jwt, const Jwks& jwks) {
  const uint64_t now = secondsNow();
  return verifyJwt(jwt, jwks, now);'''),
("  return verifyJwt(jwt, jwks, audiences, absl::ToUnixSeconds(absl::Now()));",
'''  const time_t now = std::chrono::system_clock::to_time_t(
      std::chrono::system_clock::now());
  return verifyJwt(jwt, jwks, audiences, static_cast<uint64_t>(now));'''),
('''  CheckAudience checker(audiences);
  if (!checker.areAudiencesAllowed(jwt.audiences_)) {
    return Status::JwtAudienceNotAllowed;
  }
  return verifyJwt(jwt, jwks, now);''','''  if (!audiences.empty()) {
    const auto checker = std::make_shared<const CheckAudience>(audiences);
    if (!checker->areAudiencesAllowed(jwt.audiences_)) {
      return Status::JwtAudienceNotAllowed;
    }
  }
  const Status in_time = jwt.verifyTimeConstraint(now);
  return in_time == Status::Ok ? verifyJwtWithoutTimeChecking(jwt, jwks)
                               : in_time;'''),
("namespace google {\n",'''#include <chrono>
#include <ctime>
#include <memory>

namespace google {
'''),
],
"src/check_audience.cc":[
(("std::string sanitizeAudience(","}  // namespace"),'''absl::string_view stripAudience(absl::string_view aud) {
  if (!absl::ConsumePrefix(&aud, HTTPSchemePrefix)) {
    absl::ConsumePrefix(&aud, HTTPSSchemePrefix);
  }
  absl::ConsumeSuffix(&aud, "/");
  return aud;
}

std::string sanitizeAudience(absl::string_view aud) {
  const bool unended = aud == "http://" || aud == "https://";
  return unended ? std::string() : std::string(stripAudience(aud));
}

'''),
('''  for (const auto& aud : config_audiences) {
    config_audiences_.insert(sanitizeAudience(aud));
  }''','''  std::transform(config_audiences.begin(), config_audiences.end(),
                 std::inserter(config_audiences_, config_audiences_.end()),
                 [](const std::string& aud) { return sanitizeAudience(aud); });'''),
(('''  for (const auto& aud : jwt_audiences) {
    if (config_audiences_''','''}  // namespace jwt_verify'''),'''  for (size_t i = jwt_audiences.size(); i-- > 0;) {
    if (config_audiences_.count(sanitizeAudience(jwt_audiences[i])) > 0) {
      return true;
    }
  }
  return false;
}

'''),
("namespace google {\n",'''#include <algorithm>
#include <iterator>
#include "absl/strings/strip.h"

namespace google {
'''),
],
"src/struct_utils.cc":[
(("  const std::vector<absl::string_view> name_vector","}  // namespace jwt_verify"),'''  const google::protobuf::Struct* current_struct = &struct_pb_;
  std::string::size_type begin = 0;
  while (true) {
    const std::string::size_type dot = nested_names.find('.', begin);
    const bool last = dot == std::string::npos;
    const auto& fields = current_struct->fields();
    const auto it = fields.find(
        nested_names.substr(begin, last ? std::string::npos : dot - begin));
    if (it == fields.end()) return MISSING;
    const google::protobuf::Value& value = it->second;
    if (last) {
      found = std::addressof(value);
      return OK;
    }
    if (!value.has_struct_value()) return WRONG_TYPE;
    current_struct = &value.struct_value();
    begin = dot + 1;
  }
}

'''),
(("  if (found->kind_case() == google::protobuf::Value::kStringValue) {\n    list->","StructUtils::FindResult StructUtils::GetValue("),'''  switch (found->kind_case()) {
    case google::protobuf::Value::kStringValue:
      list->emplace_back(found->string_value());
      return OK;
    case google::protobuf::Value::kListValue: {
      const auto& list_value = found->list_value();
      for (int i = 0; i < list_value.values_size(); ++i) {
        const auto& v = list_value.values(i);
        if (!v.has_string_value()) return WRONG_TYPE;
        list->emplace_back(v.string_value());
      }
      return OK;
    }
    default:
      return WRONG_TYPE;
  }
}

'''),
],
"src/jwks.cc":[
(('''  StructUtils jwk_getter(jwk_pb);
  std::string n_str;''','''  KeyGetter e;
  jwk->rsa_ ='''),'''  struct Required {
    const char* name;
    Status missing;
    Status bad;
    std::string value;
  };
  std::array<Required, 2> required = {
      {{"n", Status::JwksRSAKeyMissingN, Status::JwksRSAKeyBadN, {}},
       {"e", Status::JwksRSAKeyMissingE, Status::JwksRSAKeyBadE, {}}}};
  StructUtils jwk_getter(jwk_pb);
  for (Required& r : required) {
    const auto code = jwk_getter.GetString(r.name, &r.value);
    if (code != StructUtils::OK) {
      return code == StructUtils::MISSING ? r.missing : r.bad;
    }
  }
  const std::string& n_str = required[0].value;
  const std::string& e_str = required[1].value;

'''),
(('''  int nid;
  if (jwk->alg_ == "ES256" ||''','''  std::string x_str;'''),'''  static const std::map<std::string, std::pair<std::string, int>> kCurves = {
      {"ES256", {"P-256", NID_X9_62_prime256v1}},
      {"ES384", {"P-384", NID_secp384r1}},
      {"ES512", {"P-521", NID_secp521r1}},
  };
  int nid = NID_undef;
  for (const auto& curve : kCurves) {
    if (jwk->alg_ == curve.first || jwk->crv_ == curve.second.first) {
      jwk->crv_ = curve.second.first;
      nid = curve.second.second;
      break;
    }
  }
  if (nid == NID_undef) {
    return Status::JwksECKeyAlgOrCrvUnsupported;
  }

'''),
(('''  if (jwk->kty_ == "EC") {
    return extractJwkFromJwkEC''','''  return Status::JwksNotImplementedKty;'''),'''  using Extract = Status (*)(const ::google::protobuf::Struct&, Jwks::Pubkey*);
  const std::initializer_list<std::pair<absl::string_view, Extract>> extracts =
      {{"RSA", &extractJwkFromJwkRSA},
       {"EC", &extractJwkFromJwkEC},
       {"OKP", &extractJwkFromJwkOKP},
       {"oct", &extractJwkFromJwkOct}};
  const auto it =
      std::find_if(extracts.begin(), extracts.end(),
                   [jwk](const std::pair<absl::string_view, Extract>& e) {
                     return e.first == jwk->kty_;
                   });
  if (it != extracts.end()) return it->second(jwk_pb, jwk);
'''),
(('''  if (jwks_pb.fields().empty()) {
    return false;''','''Status createFromX509('''),'''  const auto& fields = jwks_pb.fields();
  return !fields.empty() &&
         std::all_of(
             fields.begin(), fields.end(),
             [](const ::google::protobuf::Map<
                 std::string, ::google::protobuf::Value>::value_type& kid) {
               absl::string_view cert = kid.second.string_value();
               return !kid.first.empty() && kid.second.has_string_value() &&
                      absl::StartsWith(cert, kX509CertPrefix) &&
                      absl::EndsWith(cert, kX509CertSuffix);
             });
}

'''),
("namespace google {\n",'''#include <algorithm>
#include <array>
#include <map>
#include <utility>

namespace google {
'''),
],
"simple_lru_cache/simple_lru_cache_inl.h":[
('''    return std::chrono::duration_cast<std::chrono::microseconds>(
               std::chrono::system_clock::now().time_since_epoch())
        .count();''','''    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return static_cast<int64_t>(ts.tv_sec) * kSecToUsec + ts.tv_nsec / 1000;'''),
("#include <chrono>\n","#include <chrono>\n#include <time.h>\n"),
],
}
