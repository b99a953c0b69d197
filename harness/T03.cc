// Claims of every kind, jointly with undecodable sections.
#include "absl/strings/escaping.h"
#include "keys.h"
DEFINE_MODEL_JSON
struct C { const char* name; int type; bool present; uint64_t kind; Str str; int numi; bool bad, oor; uint64_t num; };
#ifdef TEXTS
// One section of symbolic characters, the others good.
extern "C" void sym_main() {
  setStr(addDoc("H"), "alg", "ES384");
  addDoc("P");
  int which = sym_choose("section", 3);
  Str sec[3] = {"SA", "UA", "QUJD"}, raw;
  Str& t = sec[which];
  t = sym_string(1 + sym_choose("len", TEXTS), "text");
  for (char ch : t) if (ch == '.') sym_end();
  bool good = absl::WebSafeBase64Unescape(t, &raw);
  Jwt j;
  Status s = j.parseFromString(sec[0] + "." + sec[1] + "." + sec[2]);
  static const Status bad[3] = {Status::JwtHeaderParseErrorBadBase64, Status::JwtPayloadParseErrorBadBase64, Status::JwtSignatureParseErrorBadBase64};
  static const Status json[2] = {Status::JwtHeaderParseErrorBadJson, Status::JwtPayloadParseErrorBadJson};
  if (!good) { sym_reach(which == 0 ? "hdr64" : which == 1 ? "pay64" : "sig"); sym_assert(s == bad[which], "an undecodable section is reported"); }
  else if (which == 0 && raw == "P") sym_assert(s == Status::JwtHeaderBadAlg, "a header without alg is refused");
  else if (which < 2 && raw != "H" && raw != "P") sym_assert(s == json[which], "a section that is not JSON is reported");
  else { sym_reach("ok"); sym_assert(s == Status::Ok, "a good token parses"); if (which == 2) sym_assert(j.signature_ == raw, "the signature is the decoded third section"); }
}
#else
extern "C" void sym_main() {
  int hv = sym_choose("header", 3), pv = hv ? 0 : (int)sym_choose("payload", 3);
  // the table says what these texts mean
  static const Str HT = "H{some header, of somewhat more than forty characters}", PT = "P{some payload, of somewhat more than sixty characters or so, as most are}", HN = HT + "?", PN = PT + "?";
  pb::Struct* h = addDoc(HT);
  setStr(h, "alg", "ES384");
  pb::Struct* p = addDoc(PT);
  auto& f = *p->mutable_fields();
  static C c[7] = {{"iss", 0}, {"sub", 0}, {"iat", 1}, {"nbf", 1}, {"exp", 1}, {"jti", 0}, {"aud", 2}};
  static const double nums[6] = {7.75, 0, 18446744073709549568.0, -1, 18446744073709551616.0, -0.25};
  std::vector<Str> aud;
  bool audbad = false;
#ifdef FOCUS
  int focus = sym_choose("focus", 7);
#else
  int focus = -1;
#endif
  for (int i = 0; i < 7; i++) {
    C& k = c[i];
    bool plain = hv || pv || (focus >= 0 && focus != i);
    k.present = plain ? true : sym_bool("present");
    k.kind = plain ? (k.type == 1 ? 2 : 3) : sym_range("kind", 1, 6);
    Str s1 = k.type == 1 ? Str("12") : k.name + sym_string(focus == i ? sym_choose("len", 3) : 1, "str");
    k.str = s1;
    k.numi = k.type == 1 && focus == i ? sym_choose("num", 6) : 0;
    double d = nums[k.numi];
    if (k.numi == 0) d += i;
    k.num = k.numi == 0 ? 7 + i : k.numi == 1 ? 0 : 18446744073709549568ull;
    k.oor = k.type == 1 && k.numi >= 3;
    pb::Value& v = f[k.name];
    v.model_fill(d, true, s1);
    v.model_kind(k.kind);
    f.model_presence(k.name, k.present);
    bool isn = k.kind == 2, iss = k.kind == 3, isl = k.kind == 6;
    if (k.type == 0) k.bad = k.present & !iss;
    if (k.type == 1) { k.bad = k.present & !isn; k.oor &= k.present & isn; }
    if (k.type == 2) {
      int n = plain ? 0 : (int)sym_choose("aud_n", focus == i ? 4 : 3);
      for (int e = 0; e < n; e++) {
        pb::Value* w = v.mutable_list_value()->add_values();
        Str es = "a" + sym_string(1, "aud");
        uint64_t ek = sym_range("aud_kind", 1, 6);
        w->model_fill(1, true, es);
        w->model_kind(ek);
        audbad |= ek != 3;
        aud.push_back(es);
      }
      v.model_kind(k.kind);
      k.bad = k.present & ((!iss & !isl) | (isl & audbad));
    }
  }
  bool sigbad = sym_choose("sig", 2);
  Str raw = sym_string(3, "sigbytes");
  Str text = (hv == 0 ? b64url(HT) : hv == 1 ? Str("S!A") : b64url(HN)) + "." + (pv == 0 ? b64url(PT) : pv == 1 ? Str("U") : b64url(PN)) + "." + (sigbad ? Str("U*U") : b64url(raw));
#ifdef PRIOR  // another token parsed before: all of it differs, or only a section
  {
    int how = sym_choose("prior", 6), rel = sym_choose("prior_text", 4);
    Str hd = how != 2 ? relText(HT, rel) : HT, pl = how != 1 ? relText(PT, rel ^ 1) : PT;
    pb::Struct* q = addDoc(hd);
    setStr(q, "alg", "ES256");
    q = addDoc(pl);
    static const char* const name[4] = {"iss", "sub", "jti", "aud"};
    for (auto n : name) setStr(q, n, "earlier");
    static const char* const num[3] = {"iat", "nbf", "exp"};
    for (auto n : num) setNum(q, n, 99);
    Jwt o;
    if (how < 5) o.parseFromString(b64url(hd) + "." + b64url(pl) + "." + (how == 3 ? "VFRU" : b64url(raw)));
    if (how > 3) o.parseFromString(text);
  }
#endif
  Jwt j;
  Status s = j.parseFromString(text);
  bool anybad = false;
  for (auto& k : c) anybad |= k.bad | k.oor;
  if (hv == 1) { sym_reach("hdr64"); sym_assert(s == Status::JwtHeaderParseErrorBadBase64, "an undecodable header is reported"); sym_end(); }
  if (hv == 2) { sym_assert(s == Status::JwtHeaderParseErrorBadJson, "a header that is not JSON is reported"); sym_end(); }
  if (pv == 1) { sym_reach("pay64"); sym_assert(s == Status::JwtPayloadParseErrorBadBase64, "an undecodable payload is reported"); sym_end(); }
  if (pv == 2) { sym_assert(s == Status::JwtPayloadParseErrorBadJson, "a payload that is not JSON is reported"); sym_end(); }
  switch (s) {
    case Status::JwtPayloadParseErrorIssNotString: sym_assert(c[0].bad, "iss reported only if it is not a string"); break;
    case Status::JwtPayloadParseErrorSubNotString: sym_assert(c[1].bad, "sub reported only if it is not a string"); break;
    case Status::JwtPayloadParseErrorIatNotInteger: sym_assert(c[2].bad, "iat reported only if it is not a number"); break;
    case Status::JwtPayloadParseErrorIatOutOfRange: sym_assert(c[2].oor, "iat out of range only if it is"); break;
    case Status::JwtPayloadParseErrorNbfNotInteger: sym_assert(c[3].bad, "nbf reported only if it is not a number"); break;
    case Status::JwtPayloadParseErrorNbfOutOfRange: sym_assert(c[3].oor, "nbf out of range only if it is"); break;
    case Status::JwtPayloadParseErrorExpNotInteger: sym_assert(c[4].bad, "exp reported only if it is not a number"); break;
    case Status::JwtPayloadParseErrorExpOutOfRange: sym_assert(c[4].oor, "exp out of range only if it is"); break;
    case Status::JwtPayloadParseErrorJtiNotString: sym_assert(c[5].bad, "jti reported only if it is not a string"); break;
    case Status::JwtPayloadParseErrorAudNotString: sym_reach("aud"); sym_assert(c[6].bad, "aud reported only if it is no string or list of strings"); break;
    case Status::JwtSignatureParseErrorBadBase64: sym_reach("sig"); sym_assert(!anybad & sigbad, "the signature is judged last"); break;
    case Status::Ok: {
      sym_reach("ok");
      sym_assert(!anybad & !sigbad, "a token with a malformed part is refused");
      const Str* ss[3] = {&j.iss_, &j.sub_, &j.jti_};
      const int si[3] = {0, 1, 5};
      for (int i = 0; i < 3; i++) sym_assert(*ss[i] == (c[si[i]].present ? c[si[i]].str : Str()), "a string claim is that of the payload");
      const uint64_t ns[3] = {j.iat_, j.nbf_, j.exp_};
      for (int i = 0; i < 3; i++) sym_assert(ns[i] == (c[2 + i].present ? c[2 + i].num : 0), "a numeric claim is that of the payload");
      std::vector<Str> want;
      if (c[6].present) { if (c[6].kind == 3) want.push_back(c[6].str); else want = aud; }
      sym_assert(j.audiences_.size() == want.size(), "aud has as many entries as the payload");
      for (size_t i = 0; i < want.size() && i < j.audiences_.size(); i++) sym_assert(j.audiences_[i] == want[i], "aud entries are those of the payload, in order");
      sym_assert(j.signature_ == raw, "the signature is the decoded third section");
      sym_assert(j.header_str_ == HT && j.payload_str_ == PT, "the decoded sections are exposed");
      break;
    }
    default: sym_fail("the status is that of a part of the token");
  }
}
#endif
