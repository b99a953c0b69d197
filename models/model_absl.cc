// Abseil pieces that live in libabsl*.a, re-implemented for the symbolic module
// (native replay links the real library; tools/absl_diff compares the two).
#include <cstring>
#include <ostream>
#include "absl/strings/numbers.h"
#include "absl/time/clock.h"
#include "absl/strings/str_replace.h"
#include <string>
#include "absl/strings/ascii.h"
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "absl/synchronization/mutex.h"
#include "sym.h"
#include <pthread.h>
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace ascii_internal {
const unsigned char kPropertyBits[256] = {64,64,64,64,64,64,64,64,64,104,72,72,72,72,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,40,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,132,132,132,132,132,132,132,132,132,132,16,16,16,16,16,16,16,133,133,133,133,133,133,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,16,16,16,16,16,16,133,133,133,133,133,133,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,16,16,16,16,64,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
const char kToUpper[256] = {(char)0,(char)1,(char)2,(char)3,(char)4,(char)5,(char)6,(char)7,(char)8,(char)9,(char)10,(char)11,(char)12,(char)13,(char)14,(char)15,(char)16,(char)17,(char)18,(char)19,(char)20,(char)21,(char)22,(char)23,(char)24,(char)25,(char)26,(char)27,(char)28,(char)29,(char)30,(char)31,(char)32,(char)33,(char)34,(char)35,(char)36,(char)37,(char)38,(char)39,(char)40,(char)41,(char)42,(char)43,(char)44,(char)45,(char)46,(char)47,(char)48,(char)49,(char)50,(char)51,(char)52,(char)53,(char)54,(char)55,(char)56,(char)57,(char)58,(char)59,(char)60,(char)61,(char)62,(char)63,(char)64,(char)65,(char)66,(char)67,(char)68,(char)69,(char)70,(char)71,(char)72,(char)73,(char)74,(char)75,(char)76,(char)77,(char)78,(char)79,(char)80,(char)81,(char)82,(char)83,(char)84,(char)85,(char)86,(char)87,(char)88,(char)89,(char)90,(char)91,(char)92,(char)93,(char)94,(char)95,(char)96,(char)65,(char)66,(char)67,(char)68,(char)69,(char)70,(char)71,(char)72,(char)73,(char)74,(char)75,(char)76,(char)77,(char)78,(char)79,(char)80,(char)81,(char)82,(char)83,(char)84,(char)85,(char)86,(char)87,(char)88,(char)89,(char)90,(char)123,(char)124,(char)125,(char)126,(char)127,(char)128,(char)129,(char)130,(char)131,(char)132,(char)133,(char)134,(char)135,(char)136,(char)137,(char)138,(char)139,(char)140,(char)141,(char)142,(char)143,(char)144,(char)145,(char)146,(char)147,(char)148,(char)149,(char)150,(char)151,(char)152,(char)153,(char)154,(char)155,(char)156,(char)157,(char)158,(char)159,(char)160,(char)161,(char)162,(char)163,(char)164,(char)165,(char)166,(char)167,(char)168,(char)169,(char)170,(char)171,(char)172,(char)173,(char)174,(char)175,(char)176,(char)177,(char)178,(char)179,(char)180,(char)181,(char)182,(char)183,(char)184,(char)185,(char)186,(char)187,(char)188,(char)189,(char)190,(char)191,(char)192,(char)193,(char)194,(char)195,(char)196,(char)197,(char)198,(char)199,(char)200,(char)201,(char)202,(char)203,(char)204,(char)205,(char)206,(char)207,(char)208,(char)209,(char)210,(char)211,(char)212,(char)213,(char)214,(char)215,(char)216,(char)217,(char)218,(char)219,(char)220,(char)221,(char)222,(char)223,(char)224,(char)225,(char)226,(char)227,(char)228,(char)229,(char)230,(char)231,(char)232,(char)233,(char)234,(char)235,(char)236,(char)237,(char)238,(char)239,(char)240,(char)241,(char)242,(char)243,(char)244,(char)245,(char)246,(char)247,(char)248,(char)249,(char)250,(char)251,(char)252,(char)253,(char)254,(char)255};
const char kToLower[256] = {(char)0,(char)1,(char)2,(char)3,(char)4,(char)5,(char)6,(char)7,(char)8,(char)9,(char)10,(char)11,(char)12,(char)13,(char)14,(char)15,(char)16,(char)17,(char)18,(char)19,(char)20,(char)21,(char)22,(char)23,(char)24,(char)25,(char)26,(char)27,(char)28,(char)29,(char)30,(char)31,(char)32,(char)33,(char)34,(char)35,(char)36,(char)37,(char)38,(char)39,(char)40,(char)41,(char)42,(char)43,(char)44,(char)45,(char)46,(char)47,(char)48,(char)49,(char)50,(char)51,(char)52,(char)53,(char)54,(char)55,(char)56,(char)57,(char)58,(char)59,(char)60,(char)61,(char)62,(char)63,(char)64,(char)97,(char)98,(char)99,(char)100,(char)101,(char)102,(char)103,(char)104,(char)105,(char)106,(char)107,(char)108,(char)109,(char)110,(char)111,(char)112,(char)113,(char)114,(char)115,(char)116,(char)117,(char)118,(char)119,(char)120,(char)121,(char)122,(char)91,(char)92,(char)93,(char)94,(char)95,(char)96,(char)97,(char)98,(char)99,(char)100,(char)101,(char)102,(char)103,(char)104,(char)105,(char)106,(char)107,(char)108,(char)109,(char)110,(char)111,(char)112,(char)113,(char)114,(char)115,(char)116,(char)117,(char)118,(char)119,(char)120,(char)121,(char)122,(char)123,(char)124,(char)125,(char)126,(char)127,(char)128,(char)129,(char)130,(char)131,(char)132,(char)133,(char)134,(char)135,(char)136,(char)137,(char)138,(char)139,(char)140,(char)141,(char)142,(char)143,(char)144,(char)145,(char)146,(char)147,(char)148,(char)149,(char)150,(char)151,(char)152,(char)153,(char)154,(char)155,(char)156,(char)157,(char)158,(char)159,(char)160,(char)161,(char)162,(char)163,(char)164,(char)165,(char)166,(char)167,(char)168,(char)169,(char)170,(char)171,(char)172,(char)173,(char)174,(char)175,(char)176,(char)177,(char)178,(char)179,(char)180,(char)181,(char)182,(char)183,(char)184,(char)185,(char)186,(char)187,(char)188,(char)189,(char)190,(char)191,(char)192,(char)193,(char)194,(char)195,(char)196,(char)197,(char)198,(char)199,(char)200,(char)201,(char)202,(char)203,(char)204,(char)205,(char)206,(char)207,(char)208,(char)209,(char)210,(char)211,(char)212,(char)213,(char)214,(char)215,(char)216,(char)217,(char)218,(char)219,(char)220,(char)221,(char)222,(char)223,(char)224,(char)225,(char)226,(char)227,(char)228,(char)229,(char)230,(char)231,(char)232,(char)233,(char)234,(char)235,(char)236,(char)237,(char)238,(char)239,(char)240,(char)241,(char)242,(char)243,(char)244,(char)245,(char)246,(char)247,(char)248,(char)249,(char)250,(char)251,(char)252,(char)253,(char)254,(char)255};
}

namespace base_internal {
[[noreturn]] void ThrowStdOutOfRange(const char*) { std::__throw_out_of_range(""); }
[[noreturn]] void ThrowStdOutOfRange(const std::string&) { std::__throw_out_of_range(""); }
[[noreturn]] void ThrowStdLengthError(const char*) { std::__throw_length_error(""); }
[[noreturn]] void ThrowStdInvalidArgument(const char*) { std::__throw_invalid_argument(""); }
}
namespace raw_log_internal {
void RawLog(LogSeverity s, const char*, int, const char*, ...) { if (s == LogSeverity::kFatal) __builtin_trap(); }
}
// ------------------------------------------------------------ string_view
#define SZ string_view::size_type
#define NP string_view::npos
SZ string_view::find(string_view s, SZ pos) const noexcept {
  SZ n = size(), m = s.size();
  if (n == 0 || pos > n) return (n == 0 && pos == 0 && m == 0) ? 0 : NP;
  for (; pos + m <= n; ++pos)
    if (m == 0 || memcmp(data() + pos, s.data(), m) == 0) return pos;
  return NP;
}
SZ string_view::find(char c, SZ pos) const noexcept {
  if (pos >= size()) return NP;
  const char* r = (const char*)memchr(data() + pos, c, size() - pos);
  return r ? r - data() : NP;
}
SZ string_view::rfind(string_view s, SZ pos) const noexcept {
  if (size() < s.size()) return NP;
  if (s.empty()) return pos < size() ? pos : size();
  SZ i = size() - s.size();
  if (pos < i) i = pos;
  for (;; --i) {
    if (memcmp(data() + i, s.data(), s.size()) == 0) return i;
    if (i == 0) return NP;
  }
}
SZ string_view::rfind(char c, SZ pos) const noexcept {
  if (empty()) return NP;
  for (SZ i = (pos < size() - 1 ? pos : size() - 1);; --i) {
    if (data()[i] == c) return i;
    if (i == 0) return NP;
  }
}
static bool in_(char c, string_view s) { for (char d : s) if (c == d) return true; return false; }
SZ string_view::find_first_of(string_view s, SZ pos) const noexcept {
  for (SZ i = pos; i < size(); i++) if (in_(data()[i], s)) return i;
  return NP;
}
SZ string_view::find_first_not_of(string_view s, SZ pos) const noexcept {
  for (SZ i = pos; i < size(); i++) if (!in_(data()[i], s)) return i;
  return NP;
}
SZ string_view::find_first_not_of(char c, SZ pos) const noexcept {
  for (SZ i = pos; i < size(); i++) if (data()[i] != c) return i;
  return NP;
}
SZ string_view::find_last_of(string_view s, SZ pos) const noexcept {
  if (empty()) return NP;
  for (SZ i = (pos < size() - 1 ? pos : size() - 1);; --i) {
    if (in_(data()[i], s)) return i;
    if (i == 0) return NP;
  }
}
SZ string_view::find_last_not_of(string_view s, SZ pos) const noexcept {
  if (empty()) return NP;
  for (SZ i = (pos < size() - 1 ? pos : size() - 1);; --i) {
    if (!in_(data()[i], s)) return i;
    if (i == 0) return NP;
  }
}
SZ string_view::find_last_not_of(char c, SZ pos) const noexcept {
  if (empty()) return NP;
  for (SZ i = (pos < size() - 1 ? pos : size() - 1);; --i) {
    if (data()[i] != c) return i;
    if (i == 0) return NP;
  }
}
// ------------------------------------------------------------ match, ascii
static inline char low(char c) { return (unsigned char)(c - 'A') < 26 ? c + 32 : c; }
static inline char upp(char c) { return (unsigned char)(c - 'a') < 26 ? c - 32 : c; }
bool EqualsIgnoreCase(string_view a, string_view b) noexcept {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (low(a[i]) != low(b[i])) return false;
  return true;
}
bool StartsWithIgnoreCase(string_view t, string_view p) noexcept { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
bool EndsWithIgnoreCase(string_view t, string_view p) noexcept { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p); }
void AsciiStrToLower(std::string* s) { for (auto& c : *s) c = low(c); }
void AsciiStrToUpper(std::string* s) { for (auto& c : *s) c = upp(c); }
void RemoveExtraAsciiWhitespace(std::string*) { __builtin_trap(); }
// ------------------------------------------------------------ split
static string_view at_(string_view t, size_t p, size_t n) {
  if (p == NP) return string_view(t.data() + t.size(), 0);
  return t.substr(p, n);
}
ByString::ByString(string_view sp) : delimiter_(sp) {}
string_view ByString::Find(string_view t, size_t pos) const {
  if (delimiter_.empty() && !t.empty()) return string_view(t.data() + 1, 0);
  return at_(t, t.find(delimiter_, pos), delimiter_.size());
}
string_view ByChar::Find(string_view t, size_t pos) const { return at_(t, t.find(c_, pos), 1); }
ByAnyChar::ByAnyChar(string_view sp) : delimiters_(sp) {}
string_view ByAnyChar::Find(string_view t, size_t pos) const {
  if (delimiters_.empty() && !t.empty()) return string_view(t.data() + 1, 0);
  return at_(t, t.find_first_of(delimiters_, pos), 1);
}
ByLength::ByLength(ptrdiff_t l) : length_(l) {}
string_view ByLength::Find(string_view t, size_t pos) const {
  pos = pos < t.size() ? pos : t.size();
  string_view s = t.substr(pos);
  if (s.length() <= (size_t)length_) return string_view(t.data() + t.size(), 0);
  return string_view(s.data() + length_, 0);
}
// ------------------------------------------------------------ cat
std::string StrCat(const AlphaNum& a, const AlphaNum& b) { std::string r(a.data(), a.size()); r.append(b.data(), b.size()); return r; }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { std::string r = StrCat(a, b); r.append(c.data(), c.size()); return r; }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { std::string r = StrCat(a, b, c); r.append(d.data(), d.size()); return r; }
namespace strings_internal {
std::string CatPieces(std::initializer_list<string_view> ps) { std::string r; for (auto p : ps) r.append(p.data(), p.size()); return r; }
void AppendPieces(std::string* d, std::initializer_list<string_view> ps) { for (auto p : ps) d->append(p.data(), p.size()); }
}
void StrAppend(std::string* d, const AlphaNum& a) { d->append(a.data(), a.size()); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b) { StrAppend(d, a); StrAppend(d, b); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { StrAppend(d, a, b); StrAppend(d, c); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& e) { StrAppend(d, a, b, c); StrAppend(d, e); }
namespace numbers_internal {
char* FastIntToBuffer(uint64_t v, char* out) {
  char tmp[24]; int n = 0;
  do { tmp[n++] = '0' + v % 10; v /= 10; } while (v);
  while (n) *out++ = tmp[--n];
  *out = 0;
  return out;
}
char* FastIntToBuffer(int64_t v, char* out) {
  if (v < 0) { *out++ = '-'; return FastIntToBuffer((uint64_t)0 - (uint64_t)v, out); }
  return FastIntToBuffer((uint64_t)v, out);
}
char* FastIntToBuffer(uint32_t v, char* out) { return FastIntToBuffer((uint64_t)v, out); }
char* FastIntToBuffer(int32_t v, char* out) { return FastIntToBuffer((int64_t)v, out); }
}
// ------------------------------------------------------------ base64
// value of a base64 character, 255 when it is none; no branches
static inline unsigned char val64(unsigned char c, bool web) {
  unsigned char r = 255;
  r = (unsigned char)(c - 'A') < 26 ? (unsigned char)(c - 'A') : r;
  r = (unsigned char)(c - 'a') < 26 ? (unsigned char)(c - 'a' + 26) : r;
  r = (unsigned char)(c - '0') < 10 ? (unsigned char)(c - '0' + 52) : r;
  r = c == (web ? '-' : '+') ? 62 : r;
  r = c == (web ? '_' : '/') ? 63 : r;
  return r;
}
static inline bool space_(unsigned char c) { return (c == 32) | ((unsigned char)(c - 9) < 5); }
static inline bool pad_(unsigned char c) { return (c == '=') | (c == '.'); }
static bool unb64(const char* p, size_t n, std::string* dest, bool web) {
  // The two phases of absl's decoder (whole groups, then the tail) accept the
  // same language: six-bit characters with embedded white space, then padding.
  std::string out;
  out.reserve(n / 4 * 3 + 3);
  unsigned temp = 0;
  int state = 0;
  size_t i = 0;
  for (; i < n; i++) {
    unsigned char c = p[i];
    unsigned char v = val64(c, web);
    if (v == 255) {
      if (space_(c)) continue;
      if (pad_(c)) break;
      dest->clear();
      return false;
    }
    temp = (temp << 6) | v;
    if (++state == 4) {
      out.push_back((char)(temp >> 16)); out.push_back((char)(temp >> 8)); out.push_back((char)temp);
      temp = 0; state = 0;
    }
  }
  int expected = 0;
  switch (state) {
    case 1: dest->clear(); return false;
    case 2: out.push_back((char)(temp >> 4)); expected = 2; break;
    case 3: out.push_back((char)(temp >> 10)); out.push_back((char)(temp >> 2)); expected = 1; break;
  }
  int equals = 0;
  for (; i < n; i++) {
    unsigned char c = p[i];
    if (pad_(c)) equals++;
    else if (!space_(c)) { dest->clear(); return false; }
  }
  if (equals != 0 && equals != expected) { dest->clear(); return false; }
  *dest = out;
  return true;
}
static std::string esc64(string_view s, bool web, bool pad) {
  static const char* kStd = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  static const char* kWeb = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  const char* t = web ? kWeb : kStd;
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned a = (unsigned char)s[i], b = i + 1 < s.size() ? (unsigned char)s[i + 1] : 0, c = i + 2 < s.size() ? (unsigned char)s[i + 2] : 0;
    unsigned v = a << 16 | b << 8 | c;
    r += t[v >> 18 & 63]; r += t[v >> 12 & 63];
    if (i + 1 < s.size()) r += t[v >> 6 & 63]; else if (pad) r += '=';
    if (i + 2 < s.size()) r += t[v & 63]; else if (pad) r += '=';
  }
  return r;
}
bool Base64Unescape(string_view s, std::string* d) { return unb64(s.data(), s.size(), d, false); }
bool WebSafeBase64Unescape(string_view s, std::string* d) { return unb64(s.data(), s.size(), d, true); }
std::string Base64Escape(string_view s) { return esc64(s, false, true); }
std::string WebSafeBase64Escape(string_view s) { return esc64(s, true, false); }
void Base64Escape(string_view s, std::string* d) { *d = esc64(s, false, true); }
void WebSafeBase64Escape(string_view s, std::string* d) { *d = esc64(s, true, false); }
// ------------------------------------------------------------ time
Duration& Duration::operator+=(Duration rhs) {
  using namespace time_internal;
  if (IsInfiniteDuration(*this)) return *this;
  if (IsInfiniteDuration(rhs)) return *this = rhs;
  int64_t orig = rep_hi_;
  uint64_t hi = (uint64_t)rep_hi_ + (uint64_t)rhs.rep_hi_;
  uint64_t lo = (uint64_t)rep_lo_ + rhs.rep_lo_;
  if (lo >= kTicksPerSecond) { hi++; lo -= kTicksPerSecond; }
  rep_hi_ = (int64_t)hi; rep_lo_ = (uint32_t)lo;
  if (rhs.rep_hi_ < 0 ? rep_hi_ > orig : rep_hi_ < orig) return *this = rhs.rep_hi_ < 0 ? -InfiniteDuration() : InfiniteDuration();
  return *this;
}
Duration& Duration::operator-=(Duration rhs) {
  using namespace time_internal;
  if (IsInfiniteDuration(*this)) return *this;
  if (IsInfiniteDuration(rhs)) return *this = rhs.rep_hi_ >= 0 ? -InfiniteDuration() : InfiniteDuration();
  int64_t orig = rep_hi_;
  uint64_t hi = (uint64_t)rep_hi_ - (uint64_t)rhs.rep_hi_;
  uint64_t lo = rep_lo_;
  if (lo < rhs.rep_lo_) { hi--; lo += kTicksPerSecond; }
  lo -= rhs.rep_lo_;
  rep_hi_ = (int64_t)hi; rep_lo_ = (uint32_t)lo;
  if (rhs.rep_hi_ < 0 ? rep_hi_ < orig : rep_hi_ > orig) return *this = rhs.rep_hi_ >= 0 ? -InfiniteDuration() : InfiniteDuration();
  return *this;
}
int64_t ToUnixSeconds(Time t) {
  return time_internal::GetRepHi(time_internal::ToUnixDuration(t));
}
int64_t ToInt64Seconds(Duration d) {
  int64_t hi = time_internal::GetRepHi(d);
  if (time_internal::IsInfiniteDuration(d)) return hi;
  if (hi < 0 && time_internal::GetRepLo(d) != 0) ++hi;
  return hi;
}
time_t ToTimeT(Time t) { return ToUnixSeconds(t); }
int64_t ToUnixMicros(Time t) { return ToInt64Microseconds(time_internal::ToUnixDuration(t)); }
int64_t ToUnixMillis(Time t) { return ToInt64Milliseconds(time_internal::ToUnixDuration(t)); }
int64_t ToUnixNanos(Time t) { return ToInt64Nanoseconds(time_internal::ToUnixDuration(t)); }
static int64_t units_(Duration d, int64_t per) {  // whole units of 1/per s, towards zero
  int64_t hi = time_internal::GetRepHi(d);
  if (time_internal::IsInfiniteDuration(d)) return hi;
  bool neg = hi < 0;
  __int128 ticks = (__int128)hi * time_internal::kTicksPerSecond + time_internal::GetRepLo(d);
  __int128 u = neg ? -(-ticks / (time_internal::kTicksPerSecond / per)) : ticks / (time_internal::kTicksPerSecond / per);
  return u > INT64_MAX ? INT64_MAX : u < INT64_MIN ? INT64_MIN : (int64_t)u;
}
int64_t ToInt64Milliseconds(Duration d) { return units_(d, 1000); }
int64_t ToInt64Microseconds(Duration d) { return units_(d, 1000000); }
int64_t ToInt64Nanoseconds(Duration d) { return units_(d, 1000000000); }
int64_t ToInt64Minutes(Duration d) { return ToInt64Seconds(d) / 60; }
int64_t ToInt64Hours(Duration d) { return ToInt64Seconds(d) / 3600; }
double ToDoubleSeconds(Duration d) {
  int64_t hi = time_internal::GetRepHi(d);
  if (time_internal::IsInfiniteDuration(d)) return hi < 0 ? -__builtin_inf() : __builtin_inf();
  return (double)hi + (double)time_internal::GetRepLo(d) / (double)time_internal::kTicksPerSecond;
}
namespace numbers_internal {
template <class I> static bool strto_(string_view s, I* v, int base) {
  *v = 0;
  size_t i = 0, n = s.size();
  while (i < n && space_(s[i])) i++;
  while (n > i && space_(s[n - 1])) n--;
  bool neg = false;
  if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (neg && (I)-1 > 0) return false;
  if (base != 10) __builtin_trap();
  if (i >= n) return false;
  __int128 r = 0, lo = (I)-1 < 0 ? -((__int128)1 << (sizeof(I) * 8 - 1)) : 0, hi = (I)-1 < 0 ? ((__int128)1 << (sizeof(I) * 8 - 1)) - 1 : ((__int128)1 << (sizeof(I) * 8)) - 1;
  for (; i < n; i++) {
    unsigned d = (unsigned char)s[i] - '0';
    if (d > 9) { *v = (I)r; return false; }
    __int128 t = r * 10 + (neg ? -(int)d : (int)d);
    if (t < lo || t > hi) { *v = (I)(neg ? lo : hi); return false; }
    r = t;
  }
  *v = (I)r;
  return true;
}
bool safe_strto32_base(string_view s, int32_t* v, int b) { return strto_(s, v, b); }
bool safe_strto64_base(string_view s, int64_t* v, int b) { return strto_(s, v, b); }
bool safe_strtou32_base(string_view s, uint32_t* v, int b) { return strto_(s, v, b); }
bool safe_strtou64_base(string_view s, uint64_t* v, int b) { return strto_(s, v, b); }
}
std::string BytesToHexString(string_view s) {
  std::string r;
  for (unsigned char c : s) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; }
  return r;
}
std::string HexStringToBytes(string_view s) {
  std::string r;
  auto v = [](unsigned char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}
std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> rs) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    const std::pair<string_view, string_view>* best = nullptr;
    for (auto& p : rs)
      if (!p.first.empty() && p.first.size() <= s.size() - i && memcmp(s.data() + i, p.first.data(), p.first.size()) == 0 && (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { r.append(best->second.data(), best->second.size()); i += best->first.size(); }
    else r += s[i++];
  }
  return r;
}
std::ostream& operator<<(std::ostream& o, string_view s) { o.model_pad(s.data(), s.size()); return o; }
ABSL_NAMESPACE_END
}

// absl::Mutex: the engine counts the locks held, whatever their address
namespace absl {
ABSL_NAMESPACE_BEGIN
static pthread_rwlock_t anyLock;
Mutex::~Mutex() {}
void Mutex::Lock() { pthread_rwlock_wrlock(&anyLock); }
void Mutex::Unlock() { pthread_rwlock_unlock(&anyLock); }
bool Mutex::TryLock() { pthread_rwlock_wrlock(&anyLock); return true; }
void Mutex::ReaderLock() { pthread_rwlock_rdlock(&anyLock); }
void Mutex::ReaderUnlock() { pthread_rwlock_unlock(&anyLock); }
bool Mutex::ReaderTryLock() { pthread_rwlock_rdlock(&anyLock); return true; }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
ABSL_NAMESPACE_END
}
