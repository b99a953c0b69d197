// Audience lists of symbolic strings against the rule.
#include "jwt_verify_lib/check_audience.h"
#include "sym.h"
#include <vector>
using namespace google::jwt_verify;
typedef std::string Str;
#ifndef LEN
#define LEN 10
#endif
#ifndef NC
#define NC 1
#endif
#ifndef NT
#define NT 1
#endif
static Str pick(const char* name) {
#ifdef LISTS
  Str c = sym_string(1, name);
  switch (sym_choose("form", 4)) {
    case 0: return Str();
    case 1: return "https://" + c;
    case 2: return c + "/";
    default: return "http://" + c + "/";
  }
#elif defined FORMS  // prefix x body x suffix
  static const char* const pre[] = {"", "http://", "https://", "http://https://", "https://http://", "http://http://", "http:/", "HTTP://", "https:/", " http://"};
  Str s = pre[sym_choose("prefix", sizeof pre / sizeof *pre)];
  s += sym_string(sym_choose("len", LEN + 1), name);
  s.append(sym_choose("slashes", 3), '/');
  return s;
#else
  return sym_string(sym_choose("len", LEN + 1), name);
#endif
}
static Str strip(const Str& a) {
  size_t b = 0, n = a.size();
  if (n >= 7 && !a.compare(0, 7, "http://")) b = 7;
  else if (n >= 8 && !a.compare(0, 8, "https://")) b = 8;
  if (n > 0 && a[n - 1] == '/') n--;
  return n > b ? a.substr(b, n - b) : Str();
}
#ifdef LONG  // long texts, and long lists of which one pair may be equal
extern "C" void sym_main() {
  static const int lens[] = {16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4097};
  std::vector<Str> c, t;
  size_t ci, ti;
  if (sym_choose("lists", 2)) {
    static const size_t at[5] = {0, 1, 16, 38, 39};
    ci = at[sym_choose("configured", 5)]; ti = at[sym_choose("presented", 5)];
    for (int i = 0; i < 40; i++) { c.push_back(Str("http://c") + char('0' + i)); t.push_back(Str("t") + char('0' + i) + "/"); }
    c[ci] = "https://same" + sym_string(1, "conf");
    t[ti] = "same" + sym_string(1, "tok");
  } else {
    int n = lens[sym_choose("length", sizeof lens / sizeof *lens)], at = sym_choose("at", 3);
    size_t p = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    ci = ti = 0;
    c.push_back(Str(n, 'a')); t.push_back(Str(n, 'a'));
    c[0][p] = (char)sym_u8("conf"); t[0][p] = (char)sym_u8("tok");
    if (sym_choose("longer", 2)) t[0] += (char)sym_u8("more");
    if (sym_choose("scheme", 2)) t[0] = "https://" + t[0] + "/";
  }
  bool want = strip(c[ci]) == strip(t[ti]), got = CheckAudience(c).areAudiencesAllowed(t);
  sym_reach(got ? "allowed" : "refused");
  sym_assert(got == want, "allowed exactly if some pair is equal after stripping");
}
#else
extern "C" void sym_main() {
  std::vector<Str> c, t;
  int nc = sym_choose("configured", NC + 1), nt = sym_choose("presented", NT + 1);
  for (int i = 0; i < nc; i++) c.push_back(pick("conf"));
  for (int i = 0; i < nt; i++) t.push_back(pick("tok"));
#ifdef PRIOR  // an earlier check, by another or by this checker
  CheckAudience used(c);
  {
    std::vector<Str> c0, t0;
    if (sym_choose("prior_configured", 2)) c0.push_back(pick("prior_conf"));
    t0.push_back(pick("prior_tok"));
    if (sym_choose("prior_checker", 2)) used.areAudiencesAllowed(t0);
    else CheckAudience(c0).areAudiencesAllowed(t0);
  }
  bool got = used.areAudiencesAllowed(t);
#else
  bool got = CheckAudience(c).areAudiencesAllowed(t);
#endif
  bool want = nc == 0;
  for (auto& x : t)
    for (auto& y : c) want |= strip(x) == strip(y);
  if (got) { sym_reach("allowed"); sym_assert(want, "allowed only if some pair is equal after stripping"); }
  else { sym_reach("refused"); sym_assert(!want, "allowed if some pair is equal after stripping"); }
  sym_assert(CheckAudience(c).empty() == (nc == 0), "empty() tells whether audiences are configured");
}
#endif
