// Long texts and lists: one part of a token is long, the others short.
//   PART 0 the parts of a token (WHAT: 0-2 string claims, 3 kid, 4 an audience,
//          5, 9 good and bad list, 6-8 the sections), 1 names of keys, 2 dotted names
#include "jwt_verify_lib/struct_utils.h"
#include "keys.h"
DEFINE_MODEL_JSON
static const int kLens[] = {16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4097, 20001};
static int length() { return kLens[sym_choose("length", sizeof kLens / sizeof *kLens)]; }
// n characters, the first, middle or last of which is symbolic
static Str longText(int n, char c = 'k') {
  Str t(n, c);
  static const int at[3] = {0, 1, 2};
  int p = at[sym_choose("at", 3)];
  t[p == 0 ? 0 : p == 1 ? n / 2 : n - 1] = (char)sym_u8("char");
  return t;
}
#if PART == 0
extern "C" void sym_main() {
  static const int kinds[] = {WHAT};
  int n = length(), what = kinds[sym_choose("what", sizeof kinds / sizeof *kinds)];
  Str ht = "H", pt = "P", kid = "k", str[3] = {"i", "s", "j"}, sig = "ABC", tail;
  std::vector<Str> aud = {"a", "b"};
  if (what < 3) str[what] = longText(n);
  if (what == 3) kid = longText(n);
  if (what == 4) aud[1] = longText(n);
  if (what == 5 || what == 9) for (int i = 0; i < n % 300; i++) aud.push_back(Str("a") + (char)('a' + i % 26));
  if (what == 5) aud.back() = sym_string(2, "last");
  if (what == 6) sig = longText(n, 'S');
  if (what == 7) ht = Str(n, 'H');
  if (what == 8) pt = Str(n, 'P');
  pb::Struct* h = addDoc(ht);
  setStr(h, "alg", "RS256");
  setStr(h, "kid", kid);
  pb::Struct* p = addDoc(pt);
  static const char* const name[3] = {"iss", "sub", "jti"};
  for (int i = 0; i < 3; i++) setStr(p, name[i], str[i]);
  pb::Value& av = (*p->mutable_fields())["aud"];
  bool one = what == 4 && sym_choose("one", 2), bad = what == 9;
  if (one) av.set_string_value(aud[1]);
  else for (auto& a : aud) av.mutable_list_value()->add_values()->set_string_value(a);
  if (bad) av.mutable_list_value()->add_values()->set_number_value(1);
  Str hs = b64url(ht), ps = b64url(pt), text = hs + "." + ps + "." + b64url(sig);
  Jwt j;
  Status s = j.parseFromString(text);
  if (bad) { sym_reach("bad"); sym_assert(s == Status::JwtPayloadParseErrorAudNotString, "aud of a long list with a number in it is refused"); sym_end(); }
  sym_reach("parsed");
  sym_assert(s == Status::Ok, "a good token parses, however long");
  sym_assert(j.jwt_ == text && j.header_str_base64url_ == hs && j.payload_str_base64url_ == ps, "the text and its sections are kept verbatim");
  sym_assert(j.header_str_ == ht && j.payload_str_ == pt, "the decoded sections are exposed");
  sym_assert(j.alg_ == "RS256" && j.kid_ == kid, "the header is that of the token");
  sym_assert(j.iss_ == str[0] && j.sub_ == str[1] && j.jti_ == str[2], "the claims are those of the payload");
  sym_assert(j.signature_ == sig, "the signature is the decoded third section");
  size_t m = one ? 1 : aud.size();
  sym_assert(j.audiences_.size() == m, "aud has as many entries as the payload");
  for (size_t i = 0; i < m && i < j.audiences_.size(); i++) sym_assert(j.audiences_[i] == (one ? aud[1] : aud[i]), "aud entries are those of the payload, in order");
}
#elif PART == 1
extern "C" void sym_main() {
  keysValid();
  int n = length();
  KeySpec k;
  static const int ty[3] = {KRSA, KEC256, KOCT}, al[3] = {0, 6, 9}, sl[3] = {32, 64, 32};
  int f = sym_choose("type", 3);
  k.type = ty[f];
  k.kid = longText(n);
  k.material();
  pb::Struct* doc = addDoc(kDoc);
  k.toJwk(addJwk(doc));
  JwksPtr ks = Jwks::createFrom(kDoc, Jwks::JWKS);
  sym_assert(ks->keys().size() == 1 && ks->keys()[0]->kid_ == k.kid, "the key has the kid of its entry");
  Token t;
  t.alg = al[f];
  const char* header = "H";
  Str doc1(n, 'H'), doc2(n, 'P');
  int sections = sym_choose("sections", 3);  // names, header or payload long
  if (sections == 0) {
    t.kid = longText(n);
    if (sym_choose("longer", 2)) t.kid += (char)sym_u8("more");
  } else t.kid = k.kid;
  if (sections == 1) { header = doc1.c_str(); t.hsec = b64url(doc1); }
  if (sections == 2) { addDoc(doc2); t.psec = b64url(doc2); }
  t.sig = sym_string(sl[f], "sig");
  t.make(header);
  bool m = kidMatch(t, k), g = genuine(t, k);
  if (sections) {  // another token of the same key, that differs at the end
    Token u = t;
    Str& sec = sections == 1 ? u.hsec : u.psec;
    sec[sec.size() - 1] ^= 1;
    genuine(u, k);
  }
  Status s = verifyJwtWithoutTimeChecking(t.jwt, *ks);
  sym_reach(s == Status::Ok ? "accepted" : m ? "rejected" : "mismatch");
#ifndef EXACT
  sym_assert(s != Status::Ok || (m & g), "accepted only if the key of that name validates the token");
#else
  sym_assert((s == Status::Ok) == (m & g), "accepted if the key of that name validates the token");
  if (!m) sym_assert(s == Status::JwksKidAlgMismatch, "a key of another name does not match");
#endif
}
#else
extern "C" void sym_main() {
  int n = kLens[sym_choose("length", 13)], depth = sym_choose("how", 3);
  pb::Struct root;
  Str path, want = "here";
  const Str key = depth ? Str("n") : longText(n);
  if (depth == 0) {
    path = longText(n);
    for (char c : key) if (c == '.') sym_end();
    for (char c : path) if (c == '.') sym_end();
    (*root.mutable_fields())[key].set_string_value(want);
  }
  else {
    int d = n > 65 ? 65 : n;
    pb::Struct* at = &root;
    for (int i = 0; i < d; i++) { path += depth == 2 && i == d - 1 ? Str(1, (char)sym_u8("char")) : Str("n"); if (i < d - 1) { path += '.'; at = (*at->mutable_fields())["n"].mutable_struct_value(); } }
    (*at->mutable_fields())["n"].set_string_value(want);
    if (path[path.size() - 1] == '.') sym_end();
  }
  StructUtils g(root);
  Str got = "before";
  bool there = depth ? path[path.size() - 1] == 'n' : path == key;
  StructUtils::FindResult r = g.GetString(path, &got);
  sym_reach(there ? "found" : "missing");
  sym_assert(r == (there ? StructUtils::OK : StructUtils::MISSING), "a long or deep name finds exactly the value named");
  sym_assert(got == (there ? want : Str("before")), "the string is returned unchanged, or nothing is written");
}
#endif
