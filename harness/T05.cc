// An object that parsed (or failed on) text A behaves, given text B, as new.
#include "keys.h"
#include "absl/strings/escaping.h"
DEFINE_MODEL_JSON
static const char* const kClaim[7] = {"iss", "sub", "iat", "nbf", "exp", "jti", "aud"};
enum { S_DOTS, S_H64, S_HJSON, S_NOALG, S_ALGKIND, S_ALG, S_KID, S_P64, S_PJSON, S_CLAIM0, S_AUDLIST = S_CLAIM0 + 7, S_IAT_RANGE, S_SIG, S_OK, NSTAGE };
// b: distinguishes the two texts; stage: where it fails
static Str text(int b, int stage) {
  char c = (char)('A' + b);  // sections "QQ.."
  Str hs = Str("S") + c + "S" + c, ps = Str("U") + c + "U" + c;
  // decoded text of the sections, computed by the library under test's own codec
  Str hdec, pdec;
  absl::WebSafeBase64Unescape(hs, &hdec);
  absl::WebSafeBase64Unescape(ps, &pdec);
  pb::Struct* h = addDoc(hdec, stage != S_HJSON);
  if (stage != S_NOALG) {
    if (stage == S_ALGKIND) setNum(h, "alg", 4);
    else setStr(h, "alg", stage == S_ALG ? "none" : b ? "ES384" : "RS256");
  }
  if (stage == S_KID) setNum(h, "kid", 3);
  else {
    setStr(h, "kid", Str("k") + sym_string(1, "kid"));
    (*h->mutable_fields()).model_presence("kid", b ? sym_bool("kid_present") : true);
  }
  setStr(h, b ? "only2" : "only1", "x");
  pb::Struct* p = addDoc(pdec, stage != S_PJSON);
#ifdef PRESENCE
  bool all = true, sym = b == 1;
#else
  bool all = b == 0 || sym_choose("full", 2), sym = false;
#endif
  for (int i = 0; i < 7; i++) {
    pb::Value& v = (*p->mutable_fields())[kClaim[i]];
    bool bad = stage == S_CLAIM0 + i;
    if (bad) v.set_bool_value(true);
    else if (i >= 2 && i <= 4) v.set_number_value(stage == S_IAT_RANGE && i == 2 ? -5.0 : 100 * (b + 1) + i);
    else if (i == 6) {
      pb::ListValue* l = v.mutable_list_value();
      for (int k = 0; k < (b ? 1 : 2); k++) l->add_values()->set_string_value(Str(kClaim[i]) + c + (char)('0' + k) + sym_string(1, "aud"));
      if (stage == S_AUDLIST) l->add_values()->set_number_value(1);
    } else v.set_string_value(Str(kClaim[i]) + c + sym_string(1, "claim"));
    bool keep = bad || (stage == S_AUDLIST && i == 6) || (stage == S_IAT_RANGE && i == 2) || all;
    (*p->mutable_fields()).model_presence(kClaim[i], keep && (!sym || sym_bool("present")));
  }
  setStr(p, b ? "more2" : "more1", "y");
  if (stage == S_H64) hs[1] = '!';
  if (stage == S_P64) ps[1] = '!';
  Str ss = stage == S_SIG ? Str("U*UU") : Str("V") + c + "V" + c;
  if (stage == S_DOTS) return hs + "." + ps;
  return hs + "." + ps + "." + ss;
}
static bool same(const pb::Value& a, const pb::Value& b) {
  if (a.kind_case() != b.kind_case()) return false;
  switch (a.kind_case()) {
    case pb::Value::kNumberValue: return a.number_value() == b.number_value();
    case pb::Value::kStringValue: return a.string_value() == b.string_value();
    case pb::Value::kBoolValue: return a.bool_value() == b.bool_value();
    case pb::Value::kListValue: {
      if (a.list_value().values().size() != b.list_value().values().size()) return false;
      bool r = true;
      for (int i = 0; i < a.list_value().values().size(); i++) r &= same(a.list_value().values()[i], b.list_value().values()[i]);
      return r;
    }
    default: return true;
  }
}
static bool same(const pb::Struct& a, const pb::Struct& b) {
  if (a.fields().size() != b.fields().size()) return false;
  bool r = true;
  for (auto& kv : a.fields()) {
    auto it = b.fields().find(kv.first);
    if (it == b.fields().end()) return false;
    r &= same(kv.second, it->second);
  }
  return r;
}
static void eq(const Jwt& a, const Jwt& b, const char* what) {
  Str w(what);
#define F(x) sym_assert(a.x == b.x, (w + " (" #x ")").c_str());
  F(jwt_) F(header_str_) F(header_str_base64url_) F(payload_str_) F(payload_str_base64url_) F(signature_) F(alg_) F(kid_) F(iss_) F(sub_) F(iat_) F(nbf_) F(exp_) F(jti_)
#undef F
  bool au = a.audiences_.size() == b.audiences_.size();
  sym_assert(au, (w + " (number of audiences)").c_str());
  for (size_t i = 0; i < a.audiences_.size(); i++) sym_assert(a.audiences_[i] == b.audiences_[i], (w + " (audience)").c_str());
  sym_assert(same(a.header_pb_, b.header_pb_), (w + " (header_pb_)").c_str());
  sym_assert(same(a.payload_pb_, b.payload_pb_), (w + " (payload_pb_)").c_str());
}
extern "C" void sym_main() {
#ifdef PRESENCE
  int sa = S_OK, sb = S_OK;
#else
  int sa = sym_choose("stageA", NSTAGE), sb = sym_choose("stageB", NSTAGE);
#endif
  Str a = text(0, sa), b = text(1, sb);
  Jwt fresh, freshA;
  Status fs = fresh.parseFromString(b), fa = freshA.parseFromString(a);
  sym_assert((fs == Status::Ok) == (sb == S_OK) && (fa == Status::Ok) == (sa == S_OK), "the stages of this harness fail as intended");
  if (fs == Status::Ok) sym_reach("ok");
  if (fa != Status::Ok && fs == Status::Ok) sym_reach("ok_after_failure");
  switch (sym_choose("use", 7)) {
    case 0: {
      Jwt j;
      j.parseFromString(a);
      Status s = j.parseFromString(b);
      sym_assert(s == fs, "the status depends only on the last text");
      eq(j, fresh, "the fields depend only on the last text");
      break;
    }
    case 1: {
      Jwt j(fresh);
      eq(j, fresh, "a copy equals its source");
      j.parseFromString(a);
      eq(j, freshA, "a reused copy depends only on the last text");
      Jwt again;
      again.parseFromString(b);
      eq(fresh, again, "a source is not affected by later changes of its copy");
      break;
    }
    case 2: {
      Jwt j;
      j.parseFromString(a);
      Jwt& r = j = fresh;
      sym_assert(&r == &j, "assignment returns the object");
      eq(j, fresh, "an assigned object equals its source");
      fresh.parseFromString(a);
      Jwt again;
      again.parseFromString(b);
      eq(j, again, "an assigned object is not affected by later changes of its source");
      break;
    }
    case 3: {
      Jwt j;
      j.parseFromString(b);
      Jwt& r = j;
      j = r;
      eq(j, fresh, "assigning an object to itself leaves it unchanged");
      break;
    }
    case 4: {
      // the text may live in the object itself
      Jwt j;
      j.parseFromString(a);
      j.parseFromString(b);
      Status s = j.parseFromString(j.jwt_);
      sym_assert(s == fs, "parsing an object's own text gives the same status");
      eq(j, fresh, "parsing an object's own text leaves it unchanged");
      break;
    }
    case 5: {
      Jwt* src = new Jwt;
      src->parseFromString(b);
      Jwt j(*src);
      delete src;
      eq(j, fresh, "a copy does not depend on its source's lifetime");
      break;
    }
    case 6: {
      Jwt j;
      for (int i = 0; i < 2; i++) {
        Status s = j.parseFromString(b);
        sym_assert(s == fs, "parsing twice gives the same status");
        eq(j, fresh, "parsing twice gives the same fields");
      }
      break;
    }
  }
}
