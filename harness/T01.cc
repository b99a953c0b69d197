// Shape of the token text.  Every JSON document is a valid header/payload.
#include "jwt_verify_lib/jwt.h"
#include "google/protobuf/struct.pb.h"
#include "sym.h"
using namespace google::jwt_verify;
typedef std::string Str;
bool model_json(const std::string&, google::protobuf::Struct* out) {
  (*out->mutable_fields())["alg"].set_string_value("RS256");
  return true;
}
#ifndef LEN
#define LEN 6
#endif
extern "C" void sym_main() {
  size_t n = sym_choose("len", LEN + 1);
  Str t = sym_string(n, "text");
#ifdef DOTS  // dots or a letter of the alphabet, longer texts
  for (size_t i = 0; i < n; i++) sym_assume(t[i] == '.' || t[i] == 'A');
#endif
#ifdef B64  // sections that decode
  for (size_t i = 0; i < n; i++) sym_assume(t[i] == '.' || t[i] == '=' || t[i] == '-' || t[i] == '_' || (t[i] >= '0' && t[i] <= '9'));
#endif
  size_t dots = 0, d1 = 0, d2 = 0;
  for (size_t i = 0; i < n; i++)
    if (t[i] == '.') { if (++dots == 1) d1 = i; else d2 = i; }
  bool shape = dots == 2 && d1 > 0 && d2 > d1 + 1 && d2 < n - 1;
#ifdef PRIOR  // other tokens parsed before
  static const char* const before[4] = {"QQ.QQ.QQ", "AA.AA.AA", "A.A", "AA.AA."};
  Jwt keep;
  size_t b = sym_choose("before", 4 + n);
  Str u = b < 4 ? Str(before[b]) : t;
  if (b >= 4) u[b - 4] = (char)('.' + 'A' - u[b - 4]);  // one byte of the text is another
  keep.parseFromString(u);
#endif
  Jwt j;
  Status s = j.parseFromString(t);
  if (shape) {
    sym_reach("three_sections");
    sym_assert(s != Status::JwtBadFormat, "three non-empty sections are not badly formatted");
  } else {
    sym_reach("bad");
    sym_assert(s == Status::JwtBadFormat, "anything else is badly formatted");
  }
  if (s == Status::Ok) {
    sym_reach("parsed");
    sym_assert(j.jwt_ == t, "the text is kept verbatim");
    if (shape) {
      sym_assert(j.header_str_base64url_ == t.substr(0, d1), "the header section is kept verbatim");
      sym_assert(j.payload_str_base64url_ == t.substr(d1 + 1, d2 - d1 - 1), "the payload section is kept verbatim");
    }
  }
}
