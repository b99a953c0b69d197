#include <algorithm>
#include "expr.h"
#include <cmath>
#include <deque>

static std::deque<Expr> arena;
static std::vector<Expr*> table(1 << 16, nullptr);
static size_t count_ = 0;
static uint64_t evalGen = 0;

size_t exprCount() { return count_; }

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdULL;
}

static E intern(Kind k, unsigned w, E a, E b, E c, uint32_t aux, u128 val) {
  uint64_t h = mix(k * 131 + w, aux);
  h = mix(h, a ? a->id + 1 : 0);
  h = mix(h, b ? b->id + 1 : 0);
  h = mix(h, c ? c->id + 1 : 0);
  h = mix(h, (uint64_t)val);
  h = mix(h, (uint64_t)(val >> 64));
  h ^= h >> 29;
  size_t i = h & (table.size() - 1);
  for (Expr* e = table[i]; e; e = e->next)
    if (e->kind == k && e->width == w && e->a == a && e->b == b && e->c == c &&
        e->aux == aux && e->val == val)
      return e;
  arena.emplace_back();
  Expr* e = &arena.back();
  e->kind = k; e->width = w; e->a = a; e->b = b; e->c = c; e->aux = aux; e->val = val;
  e->id = ++count_;
  e->z = nullptr; e->evalStamp = 0;
  e->flags = 0;
  e->depth = 0;
  for (E ch : {a, b, c}) if (ch) { e->flags |= ch->flags; if (ch->depth + 1 > e->depth) e->depth = ch->depth + 1; }
  if (k >= K_FADD) e->flags |= 1;
  if (k >= K_MUL && k <= K_SREM) e->flags |= 2;
  e->next = table[i];
  table[i] = e;
  if (count_ > table.size() * 2) {
    std::vector<Expr*> nt(table.size() * 4, nullptr);
    for (Expr& x : arena) {
      uint64_t hh = mix(x.kind * 131 + x.width, x.aux);
      hh = mix(hh, x.a ? x.a->id + 1 : 0);
      hh = mix(hh, x.b ? x.b->id + 1 : 0);
      hh = mix(hh, x.c ? x.c->id + 1 : 0);
      hh = mix(hh, (uint64_t)x.val);
      hh = mix(hh, (uint64_t)(x.val >> 64));
      hh ^= hh >> 29;
      size_t j = hh & (nt.size() - 1);
      x.next = nt[j];
      nt[j] = &x;
    }
    table.swap(nt);
  }
  return e;
}

E mkConst(u128 v, unsigned w) { return intern(K_CONST, w, nullptr, nullptr, nullptr, 0, v & maskOf(w)); }
E mkVar(uint32_t ord, unsigned w) { return intern(K_VAR, w, nullptr, nullptr, nullptr, ord, 0); }

static double asD(u128 v) { double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
static u128 ofD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 ofF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

static u128 fold2(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskOf(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: {
      s128 x = sx(a, w), y = sx(b, w);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(-x) & m;
      return (u128)(x / y) & m;
    }
    case K_SREM: {
      s128 x = sx(a, w), y = sx(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K_ASHR: { unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(sx(a, w) >> s) & m; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sx(a, w) < sx(b, w);
    case K_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}
static u128 foldF2(Kind k, u128 a, u128 b, unsigned w) {
  if (w == 64) {
    double x = asD(a), y = asD(b);
    switch (k) {
      case K_FADD: return ofD(x + y);
      case K_FSUB: return ofD(x - y);
      case K_FMUL: return ofD(x * y);
      case K_FDIV: return ofD(x / y);
      case K_FLT: return x < y;
      case K_FLE: return x <= y;
      case K_FEQ: return x == y;
      case K_FUNO: return std::isnan(x) || std::isnan(y);
      default: abort();
    }
  }
  float x = asF(a), y = asF(b);
  switch (k) {
    case K_FADD: return ofF(x + y);
    case K_FSUB: return ofF(x - y);
    case K_FMUL: return ofF(x * y);
    case K_FDIV: return ofF(x / y);
    case K_FLT: return x < y;
    case K_FLE: return x <= y;
    case K_FEQ: return x == y;
    case K_FUNO: return std::isnan(x) || std::isnan(y);
    default: abort();
  }
}
static double roundAs(double x, unsigned mode) {
  switch (mode) {
    case 0: return std::trunc(x);
    case 1: return std::floor(x);
    case 2: return std::ceil(x);
    case 3: return std::nearbyint(x);
    default: return std::round(x);
  }
}
static u128 foldFC(Kind k, u128 a, unsigned wa, unsigned w, unsigned aux) {
  double x = wa == 64 ? asD(a) : asF(a);
  switch (k) {
    case K_FP2UI: {
      if (std::isnan(x)) return 0;
      double t = roundAs(x, aux);
      if (t < 0 || t >= std::ldexp(1.0, w)) return 0;
      return (u128)t & maskOf(w);
    }
    case K_FP2SI: {
      if (std::isnan(x)) return 0;
      double t = roundAs(x, aux);
      if (t < -std::ldexp(1.0, w - 1) || t >= std::ldexp(1.0, w - 1)) return 0;
      return (u128)(s128)t & maskOf(w);
    }
    case K_UI2FP: return w == 64 ? ofD((double)a) : ofF((float)a);
    case K_SI2FP: return w == 64 ? ofD((double)sx(a, wa)) : ofF((float)sx(a, wa));
    case K_FPEXT: return ofD(asF(a));
    case K_FPTRUNC: return ofF((float)asD(a));
    case K_FRND: {
      double r = roundAs(x, aux);
      return w == 64 ? ofD(r) : ofF((float)r);
    }
    default: abort();
  }
}

E mkNot(E a) {
  if (a->width == 1) {
    if (a->isConst()) return mkBool(!a->val);
    if (a->kind == K_XOR && a->b->isTrue()) return a->a;
    if (a->kind == K_ULT) return mkBin(K_ULE, a->b, a->a);
    if (a->kind == K_ULE) return mkBin(K_ULT, a->b, a->a);
    if (a->kind == K_SLT) return mkBin(K_SLE, a->b, a->a);
    if (a->kind == K_SLE) return mkBin(K_SLT, a->b, a->a);
    return intern(K_XOR, 1, a, mkBool(true), nullptr, 0, 0);
  }
  return mkBin(K_XOR, a, mkConst(~(u128)0, a->width));
}

static E linCmp(Kind k, E a, E b);
E mkEq(E a, E b) {
  if (a == b) return mkBool(true);
  if (a->isConst() && b->isConst()) return mkBool(a->val == b->val);
  if (a->isConst()) std::swap(a, b);
  unsigned w = a->width;
  if (b->isConst()) {
    if (w == 1) return b->val ? a : mkNot(a);
    switch (a->kind) {
      case K_ITE:
        if (a->b->isConst() || a->c->isConst())
          return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        break;
      case K_ZEXT: {
        unsigned iw = a->a->width;
        if (b->val >> iw) return mkBool(false);
        return mkEq(a->a, mkConst(b->val, iw));
      }
      case K_SEXT: {
        unsigned iw = a->a->width;
        E lo = mkConst(b->val, iw);
        if (mkSExt(lo, w)->val != b->val) return mkBool(false);
        return mkEq(a->a, lo);
      }
      case K_CONCAT: {
        unsigned lw = a->b->width;
        return mkAnd(mkEq(a->a, mkConst(b->val >> lw, a->a->width)), mkEq(a->b, mkConst(b->val, lw)));
      }
      case K_ADD:
        if (a->b->isConst()) return mkEq(a->a, mkConst(b->val - a->b->val, w));
        break;
      case K_XOR:
        if (a->b->isConst()) return mkEq(a->a, mkConst(b->val ^ a->b->val, w));
        break;
      case K_SUB:
        if (b->val == 0) return mkEq(a->a, a->b);
        break;
      default: break;
    }
  } else {
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
    if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->width == b->b->width)
      return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->id > b->id) std::swap(a, b);
  }
  if (E r = linCmp(K_EQ, a, b)) return r;
  return intern(K_EQ, 1, a, b, nullptr, 0, 0);
}

// x / c * c + x % c
static E quotRem(E p, E q) {
  if (p->kind != K_MUL || !p->b->isConst()) return nullptr;
  E d = p->a;
  bool s = d->kind == K_SDIV;
  if ((!s && d->kind != K_UDIV) || d->b != p->b || p->b->val == 0) return nullptr;
  if (s && p->b->val > maskOf(p->width - 1)) return nullptr;
  return q->kind == (s ? K_SREM : K_UREM) && q->a == d->a && q->b == d->b ? d->a : nullptr;
}
// an upper bound of the unsigned value
static u128 umax(E e, int d = 0) {
  u128 m = maskOf(e->width);
  if (d > 12) return m;
  switch (e->kind) {
    case K_CONST: return e->val;
    case K_ZEXT: return umax(e->a, d + 1);
    case K_CONCAT: return e->b->width >= 64 ? m : ((umax(e->a, d + 1) << e->b->width) | maskOf(e->b->width));
    case K_AND: { u128 x = umax(e->a, d + 1), y = umax(e->b, d + 1); return x < y ? x : y; }
    case K_ADD: {  // a chain
      if (e->width > 64) return m;
      u128 s = 0;
      E x = e;
      for (; x->kind == K_ADD; x = x->a) { s += umax(x->b, d + 1); if (s > m) return m; }
      s += umax(x, d + 1);
      return s > m ? m : s;
    }
    case K_MUL: { u128 x = umax(e->a, d + 1), y = umax(e->b, d + 1); return e->width <= 64 && (x == 0 || y <= m / x) ? x * y : m; }
    case K_ITE: { u128 x = umax(e->b, d + 1), y = umax(e->c, d + 1); return x > y ? x : y; }
    case K_UDIV: if (e->b->isConst() && e->b->val) return umax(e->a, d + 1) / e->b->val; return m;
    case K_UREM: if (e->b->isConst() && e->b->val) { u128 x = umax(e->a, d + 1); return x < e->b->val ? x : e->b->val - 1; } return m;
    case K_LSHR: if (e->b->isConst() && e->b->val < e->width) return umax(e->a, d + 1) >> (unsigned)e->b->val; return m;
    default: return m;
  }
}
// Sums are kept in one order: positive terms, negative terms, constant.
static bool terms(E e, int sign, std::vector<std::pair<E, int>>& t, u128& c, int d) {
  if (t.size() > 24 || d > 24) return false;
  if (e->isConst()) { c += sign > 0 ? e->val : -e->val; return true; }
  if (e->kind == K_ADD) return terms(e->a, sign, t, c, d + 1) && terms(e->b, sign, t, c, d + 1);
  if (e->kind == K_SUB) return terms(e->a, sign, t, c, d + 1) && terms(e->b, -sign, t, c, d + 1);
  t.push_back({e, sign});
  return true;
}
static E sum(E a, E b, bool sub) {
  bool la = a->kind == K_ADD || a->kind == K_SUB, lb = b->kind == K_ADD || b->kind == K_SUB;
  if (!la && !lb) return nullptr;
  unsigned w = a->width;
  std::vector<std::pair<E, int>> t;
  u128 c = 0;
  if (!terms(a, 1, t, c, 0) || !terms(b, sub ? -1 : 1, t, c, 0)) return nullptr;
  std::sort(t.begin(), t.end(), [](const std::pair<E, int>& x, const std::pair<E, int>& y) { return x.first->id < y.first->id; });
  std::vector<E> pos, neg;
  for (size_t i = 0; i < t.size();) {
    int n = 0;
    size_t j = i;
    for (; j < t.size() && t[j].first == t[i].first; j++) n += t[j].second;
    for (; n > 0; n--) pos.push_back(t[i].first);
    for (; n < 0; n++) neg.push_back(t[i].first);
    i = j;
  }
  c &= maskOf(w);
  E r = nullptr;
  for (E x : pos) r = r ? intern(K_ADD, w, r, x, nullptr, 0, 0) : x;
  if (!r) { if (neg.empty()) return mkConst(c, w); r = mkConst(c, w); c = 0; }
  for (E x : neg) r = intern(K_SUB, w, r, x, nullptr, 0, 0);
  if (c) r = intern(K_ADD, w, r, mkConst(c, w), nullptr, 0, 0);
  return r;
}

// Comparisons of sums: terms occurring on both sides cancel and the rest is
// compared at the width it needs, where neither side can wrap around.
static E linCmp(Kind k, E a, E b) {
  bool la = a->kind == K_ADD || a->kind == K_SUB, lb = b->kind == K_ADD || b->kind == K_SUB;
  unsigned w = a->width;
  if ((!la && !lb) || w < 4 || w > 64) return nullptr;
  std::vector<std::pair<E, int>> t[2];
  __int128 c[2], lo[2], hi[2];
  bool sfit = true, ufit = true;
  for (int i = 0; i < 2; i++) {
    u128 cc = 0;
    if (!terms(i ? b : a, 1, t[i], cc, 0)) return nullptr;
    c[i] = sx(cc & maskOf(w), w);
    lo[i] = hi[i] = c[i];
    for (auto& x : t[i]) { __int128 m = (__int128)umax(x.first); if (x.second > 0) hi[i] += m; else lo[i] -= m; }
    __int128 h = (__int128)1 << (w - 1);
    if (lo[i] < -h || hi[i] >= h) sfit = false;
    if (lo[i] < 0 || hi[i] >= 2 * h) ufit = false;
  }
  if (k == K_ULT || k == K_ULE ? !ufit : k == K_SLT || k == K_SLE ? !sfit : !(ufit || sfit)) return nullptr;
  size_t before = t[0].size() + t[1].size();
  std::vector<std::pair<E, int>> d = t[0];
  for (auto& x : t[1]) d.push_back({x.first, -x.second});
  std::sort(d.begin(), d.end(), [](const std::pair<E, int>& x, const std::pair<E, int>& y) { return x.first->id < y.first->id; });
  std::vector<E> side[2];
  __int128 k0 = c[0] - c[1], cs[2] = {k0 > 0 ? k0 : 0, k0 < 0 ? -k0 : 0}, mx[2] = {cs[0], cs[1]};
  for (size_t i = 0; i < d.size();) {
    int n = 0;
    size_t j = i;
    for (; j < d.size() && d[j].first == d[i].first; j++) n += d[j].second;
    for (int q = 0; q < (n < 0 ? -n : n); q++) { side[n < 0].push_back(d[i].first); mx[n < 0] += (__int128)umax(d[i].first); }
    i = j;
  }
  __int128 top = mx[0] > mx[1] ? mx[0] : mx[1];
  unsigned nw = 1;
  while (((__int128)1 << nw) <= top) nw++;
  if (nw >= w && (nw > w || side[0].size() + side[1].size() == before)) return nullptr;
  E r[2];
  for (int i = 0; i < 2; i++) {
    E s = nullptr;
    std::vector<E> v;
    for (E x : side[i]) v.push_back(mkExtract(x, 0, nw));
    std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; });
    for (E x : v) s = !s ? x : x->isConst() || s->isConst() ? mkBin(K_ADD, s, x) : intern(K_ADD, nw, s, x, nullptr, 0, 0);
    if (!s) s = mkConst((u128)cs[i], nw);
    else if (cs[i]) s = mkBin(K_ADD, s, mkConst((u128)cs[i], nw));
    r[i] = s;
  }
  if (k == K_EQ) return mkEq(r[0], r[1]);
  return mkBin(k == K_SLT || k == K_ULT ? K_ULT : K_ULE, r[0], r[1]);
}

bool linearForm(E e, std::vector<std::pair<E, int>>& t, __int128& c, __int128& lo, __int128& hi) {
  u128 cc = 0;
  if (e->width > 64 || !terms(e, 1, t, cc, 0)) return false;
  lo = hi = c = sx(cc & maskOf(e->width), e->width);
  for (auto& x : t) { __int128 m = (__int128)umax(x.first); if (x.second > 0) hi += m; else lo -= m; }
  return true;
}
u128 upperBound(E e) { return umax(e); }

// (x * c) / c where the product does not overflow
static E divOfMul(E a, E b, bool sgn) {
  if (!b->isConst() || b->val == 0 || a->width > 64) return nullptr;
  u128 lim = sgn ? maskOf(a->width - 1) : maskOf(a->width);
  if (b->val > lim) return nullptr;
  if (a->kind == K_MUL && a->b == b && umax(a->a) <= lim / b->val) return a->a;
  if (sgn && a->kind == K_MUL && a->b == b && a->a->kind == K_SREM && a->a->b->isConst() && a->a->b->val &&
      a->a->b->val <= lim / b->val) return a->a;
  // the same of a sum of products
  if (a->kind == K_ADD || a->kind == K_SUB) {
    std::vector<std::pair<E, int>> t;
    __int128 c, lo, hi, d = (__int128)b->val, h = (__int128)1 << (a->width - 1);
    if (!linearForm(a, t, c, lo, hi) || c % d || (sgn ? lo < -h || hi >= h : lo < 0 || hi >= 2 * h)) return nullptr;
    for (auto& x : t)
      if (x.first->kind != K_MUL || x.first->b != b || umax(x.first->a) > maskOf(a->width) / b->val) return nullptr;
    E r = mkConst((u128)(c / d), a->width);
    for (auto& x : t) r = mkBin(x.second > 0 ? K_ADD : K_SUB, r, x.first->a);
    return r;
  }
  return nullptr;
}

// A sum of multiples of b and of a rest below b, none of which wraps around.
static bool multiplesAndRest(E a, E b, E& q, E& r) {
  if (a->kind != K_ADD || a->width > 64 || !b->isConst() || b->val < 2) return false;
  std::vector<std::pair<E, int>> t;
  __int128 c, lo, hi, d = (__int128)b->val, rest;
  if (!linearForm(a, t, c, lo, hi) || lo < 0 || c < 0 || hi >= (__int128)1 << a->width) return false;
  unsigned w = a->width;
  q = mkConst((u128)(c / d), w);
  r = mkConst((u128)(c % d), w);
  rest = c % d;
  bool any = false;
  for (auto& x : t) {
    E m = x.first;
    if (x.second <= 0) return false;
    if (m->kind == K_MUL && m->b->isConst() && m->b->val && m->b->val % b->val == 0 && umax(m->a) <= maskOf(w) / m->b->val) {
      any = true;
      q = mkBin(K_ADD, q, mkBin(K_MUL, m->a, mkConst(m->b->val / b->val, w)));
    } else {
      rest += (__int128)umax(m);
      if (rest >= d) return false;
      r = mkBin(K_ADD, r, m);
    }
  }
  return any;
}

// An interval of the signed value of e.
static void srange(E e, __int128& lo, __int128& hi) {
  unsigned w = e->width;
  __int128 h = (__int128)1 << (w - 1);
  lo = -h; hi = h - 1;
  if (e->isConst()) { lo = hi = sx(e->val, w); return; }
  if (e->kind == K_SEXT) { srange(e->a, lo, hi); return; }
  std::vector<std::pair<E, int>> t;
  u128 c = 0;
  if ((e->kind == K_ADD || e->kind == K_SUB) && terms(e, 1, t, c, 0)) {
    __int128 l = sx(c & maskOf(w), w), u = l;
    for (auto& x : t) { __int128 m = (__int128)umax(x.first); if (x.second > 0) u += m; else l -= m; }
    if (l >= -h && u < h) { lo = l; hi = u; return; }
  }
  u128 m = umax(e);
  if (m <= (u128)(h - 1)) { lo = 0; hi = (__int128)m; }
}
bool noSignedOverflow(Kind k, E a, E b) {
  unsigned w = a->width;
  if (w > 64 || w < 2) return false;
  __int128 al, ah, bl, bh, h = (__int128)1 << (w - 1);
  srange(a, al, ah);
  srange(b, bl, bh);
  if (k == K_ADD) return al + bl >= -h && ah + bh < h;
  if (k == K_SUB) return al - bh >= -h && ah - bl < h;
  if (k == K_MUL && w <= 64) {
    for (__int128 x : {al, ah}) for (__int128 y : {bl, bh}) { if (x * y < -h || x * y >= h) return false; }
    return true;
  }
  return false;
}

E mkBin(Kind k, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch kind %d %d %d\n", k, a->width, b->width); abort(); }
  if (k == K_EQ) return mkEq(a, b);
  bool cmp = k >= K_ULT && k <= K_SLE;
  if (cmp) if (E r = linCmp(k, a, b)) return r;
  if (a->isConst() && b->isConst()) return mkConst(fold2(k, a->val, b->val, w), cmp ? 1 : w);
  u128 m = maskOf(w);
  switch (k) {
    case K_ADD:
      if (a->isConst()) std::swap(a, b);
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->kind == K_ADD && a->b->isConst()) return mkBin(K_ADD, a->a, mkConst(a->b->val + b->val, w));
        if (w == 1) return mkNot(a);
        if (w > 1) if (E r = sum(a, b, false)) return r;
      } else {
        if (E r = quotRem(a, b)) return r;
        if (E r = quotRem(b, a)) return r;
        if (w > 1) if (E r = sum(a, b, false)) return r;
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(K_ADD, a, mkConst(-b->val, w));
      if (a->kind == K_ADD && a->a == b) return a->b;
      if (a->kind == K_ADD && a->b == b) return a->a;
      if (a->kind == K_ADD && a->b->isConst() && b->kind == K_ADD && b->b->isConst())
        return mkBin(K_ADD, mkBin(K_SUB, a->a, b->a), mkConst(a->b->val - b->b->val, w));
      if (a->kind == K_ADD && a->b->isConst())
        return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
      if (w > 1) if (E r = sum(a, b, true)) return r;
      break;
    case K_MUL:
      if (a->isConst()) std::swap(a, b);
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) {
          unsigned s = 0; while (!((b->val >> s) & 1)) s++;
          return mkBin(K_SHL, a, mkConst(s, w));
        }
      }
      break;
    case K_UDIV:
      if (b->isConst() && b->val == 1) return a;
      if (E q = divOfMul(a, b, false)) return q;
      { E q, r; if (multiplesAndRest(a, b, q, r)) return q; }
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) {
        unsigned s = 0; while (!((b->val >> s) & 1)) s++;
        return mkBin(K_LSHR, a, mkConst(s, w));
      }
      break;
    case K_UREM:
      { E q, r; if (multiplesAndRest(a, b, q, r)) return r; }
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) return mkBin(K_AND, a, mkConst(b->val - 1, w));
      break;
    case K_SDIV:
      if (b->isConst() && b->val == 1) return a;
      if (E q = divOfMul(a, b, true)) return q;
      if (b->isConst() && b->val && b->val <= maskOf(w - 1) && w <= 64 && umax(a) <= maskOf(w - 1)) return mkBin(K_UDIV, a, b);
      break;
    case K_SREM:
      if (b->isConst() && b->val && b->val <= maskOf(w - 1) && w <= 64 && umax(a) <= maskOf(w - 1)) return mkBin(K_UREM, a, b);
      break;
    case K_AND:
      if (a->isConst()) std::swap(a, b);
      if (a == b) return a;
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        if (a->kind == K_AND && a->b->isConst()) return mkBin(K_AND, a->a, mkConst(a->b->val & b->val, w));
        if (a->kind == K_ZEXT) {
          unsigned iw = a->a->width;
          if (((b->val) & maskOf(iw)) == maskOf(iw)) return a;
          return mkZExt(mkBin(K_AND, a->a, mkConst(b->val, iw)), w);
        }
        // low mask -> zext(extract)
        if ((b->val & (b->val + 1)) == 0) {
          unsigned n = 0; while ((b->val >> n) & 1) n++;
          return mkZExt(mkExtract(a, 0, n), w);
        }
      } else {
        if (w == 1) {
          if (mkNot(a) == b) return mkBool(false);
          if (b->kind == K_AND && (b->a == a || b->b == a)) return b;
          if (a->kind == K_AND && (a->a == b || a->b == b)) return a;
        }
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case K_OR:
      if (a->isConst()) std::swap(a, b);
      if (a == b) return a;
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val == m) return b;
      } else {
        if (w == 1 && mkNot(a) == b) return mkBool(true);
        // or of disjoint zext / shl : recognise concat
        if (a->kind == K_SHL && b->kind == K_ZEXT) std::swap(a, b);
        if (a->kind == K_ZEXT && b->kind == K_SHL && b->b->isConst() && b->a->kind == K_ZEXT) {
          unsigned s = (unsigned)b->b->val, iw = b->a->a->width;
          if (a->a->width <= s && s + iw <= w)
            return mkZExt(mkConcat(b->a->a, mkZExt(a->a, s)), w);
        }
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case K_XOR:
      if (a->isConst()) std::swap(a, b);
      if (a == b) return mkConst(0, w);
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->kind == K_XOR && a->b->isConst()) return mkBin(K_XOR, a->a, mkConst(a->b->val ^ b->val, w));
      } else if (a->id > b->id) std::swap(a, b);
      break;
    case K_SHL: case K_LSHR: case K_ASHR:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val >= w) {
          if (k == K_ASHR) return mkSExt(mkExtract(a, w - 1, 1), w);
          return mkConst(0, w);
        }
        unsigned s = (unsigned)b->val;
        if (k == K_LSHR) return mkZExt(mkExtract(a, s, w - s), w);
        if (k == K_SHL && a->kind != K_ZEXT) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        if (k == K_ASHR) return mkSExt(mkExtract(a, s, w - s), w);
      }
      if (a->isConst() && a->val == 0) return a;
      break;
    case K_ULT:
      if (a == b) return mkBool(false);
      if (b->isConst()) {
        if (b->val == 0) return mkBool(false);
        if (b->val == 1) return mkEq(a, mkConst(0, w));
        if (a->kind == K_ZEXT) {
          unsigned iw = a->a->width;
          if (b->val > maskOf(iw)) return mkBool(true);
          return mkBin(K_ULT, a->a, mkConst(b->val, iw));
        }
      }
      if (a->isConst()) {
        if (a->val == m) return mkBool(false);
        if (b->kind == K_ZEXT) {
          unsigned iw = b->a->width;
          if (a->val >= maskOf(iw)) return mkBool(false);
          return mkBin(K_ULT, mkConst(a->val, iw), b->a);
        }
        if (a->val == 0) return mkNot(mkEq(b, a));
      }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(K_ULT, a->a, b->a);
      break;
    case K_ULE:
      if (a == b) return mkBool(true);
      if (b->isConst()) {
        if (b->val == m) return mkBool(true);
        return mkBin(K_ULT, a, mkConst(b->val + 1, w));
      }
      if (a->isConst()) {
        if (a->val == 0) return mkBool(true);
        return mkBin(K_ULT, mkConst(a->val - 1, w), b);
      }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(K_ULE, a->a, b->a);
      break;
    case K_SLT: case K_SLE:
      if (a == b) return mkBool(k == K_SLE);
      // zext operands are non-negative
      if (a->kind == K_ZEXT && b->kind == K_ZEXT) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (a->kind == K_ZEXT && b->isConst()) {
        if (sx(b->val, w) < 0) return mkBool(false);
        return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      }
      if (b->kind == K_ZEXT && a->isConst()) {
        if (sx(a->val, w) < 0) return mkBool(true);
        return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      }
      break;
    default: break;
  }
  // distribute over ite with constant arms and constant operand
  if (b->isConst() && a->kind == K_ITE && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  if (a->isConst() && b->kind == K_ITE && b->b->isConst() && b->c->isConst())
    return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
  return intern(k, cmp ? 1 : w, a, b, nullptr, 0, 0);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (c->kind == K_XOR && c->b->isTrue()) return mkIte(c->a, b, a);
  if (a->width == 1) {
    if (a->isTrue() && b->isFalse()) return c;
    if (a->isFalse() && b->isTrue()) return mkNot(c);
    if (a->isTrue()) return mkOr(c, b);
    if (a->isFalse()) return mkAnd(mkNot(c), b);
    if (b->isTrue()) return mkOr(mkNot(c), a);
    if (b->isFalse()) return mkAnd(c, a);
  }
  if (a->kind == K_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->kind == K_ITE && b->a == c) return mkIte(c, a, b->c);
  return intern(K_ITE, a->width, c, a, b, 0, 0);
}

E mkExtract(E a, unsigned off, unsigned w) {
  if (off + w > a->width) { fprintf(stderr, "bad extract\n"); abort(); }
  if (off == 0 && w == a->width) return a;
  switch (a->kind) {
    case K_CONST: return mkConst(a->val >> off, w);
    case K_EXTRACT: return mkExtract(a->a, a->aux + off, w);
    case K_CONCAT: {
      unsigned lw = a->b->width;
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case K_ZEXT: {
      unsigned iw = a->a->width;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, iw - off), w);
    }
    case K_SEXT: {
      unsigned iw = a->a->width;
      if (off + w <= iw) return mkExtract(a->a, off, w);
      if (off >= iw) return mkSExt(mkExtract(a->a, iw - 1, 1), w);
      return mkSExt(mkExtract(a->a, off, iw - off), w);
    }
    case K_ITE:
      if (a->b->isConst() || a->c->isConst() || a->b->kind == K_CONCAT || a->b->kind == K_ZEXT)
        return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    case K_AND: case K_OR: case K_XOR:
      return mkBin(a->kind, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_ADD: case K_SUB: case K_MUL:
      // a 64-bit sum stored and reloaded bytewise must come back as it was
      if (off == 0 && w >= 32) return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return intern(K_EXTRACT, w, a, nullptr, nullptr, off, 0);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->width)
    return w == hi->a->width ? hi->a : intern(K_EXTRACT, w, hi->a, nullptr, nullptr, lo->aux, 0);
  // lo = whole x, hi = extract? not possible (same width)
  if (lo->kind == K_CONCAT && hi->kind == K_EXTRACT && lo->a->kind == K_EXTRACT && hi->a == lo->a->a &&
      hi->aux == lo->a->aux + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
  if (lo->kind == K_CONCAT && hi->isConst() && lo->a->isConst())
    return mkConcat(mkConcat(hi, lo->a), lo->b);
  return intern(K_CONCAT, w, hi, lo, nullptr, 0, 0);
}

// The widening of a sum that cannot wrap around is the sum of the widened terms.
static E widenSum(E a, unsigned w, bool sgn) {
  if ((a->kind != K_ADD && a->kind != K_SUB) || a->width < 8 || w > 64) return nullptr;
  std::vector<std::pair<E, int>> t;
  __int128 c, lo, hi;
  if (!linearForm(a, t, c, lo, hi) || lo < 0 || hi >= ((__int128)1 << (a->width - (sgn ? 1 : 0)))) return nullptr;
  E r = mkConst((u128)c, w);
  for (auto& x : t) r = mkBin(x.second > 0 ? K_ADD : K_SUB, r, mkZExt(x.first, w));
  return r;
}
E mkZExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (E r = widenSum(a, w, false)) return r;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->kind == K_ZEXT) return mkZExt(a->a, w);
  if (a->kind == K_ITE && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkConst(a->b->val, w), mkConst(a->c->val, w));
  return intern(K_ZEXT, w, a, nullptr, nullptr, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (E r = widenSum(a, w, true)) return r;
  if (a->isConst()) return mkConst((u128)sx(a->val, a->width), w);
  if (a->kind == K_SEXT) return mkSExt(a->a, w);
  if (a->kind == K_ZEXT) return mkZExt(a->a, w);
  if (a->kind == K_ITE && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K_SEXT, w, a, nullptr, nullptr, 0, 0);
}

E mkFBin(Kind k, E a, E b) {
  unsigned w = a->width;
  bool cmp = k >= K_FLT && k <= K_FUNO;
  if (a->isConst() && b->isConst()) return mkConst(foldF2(k, a->val, b->val, w), cmp ? 1 : w);
  if (k == K_FUNO) {
    if (a->kind == K_FRND) return mkFBin(k, a->a, b);
    if (b->kind == K_FRND) return mkFBin(k, a, b->a);
  }
  if ((k == K_FLT || k == K_FLE || k == K_FEQ) && (a->isConst() != b->isConst())) {
    // Comparing a rounded value with an integer is comparing the value itself.
    bool left = a->kind == K_FRND;
    E r = left ? a : b, c = left ? b : a;
    if (r->kind == K_FRND && c->isConst()) {
      double v = w == 64 ? asD(c->val) : asF(c->val);
      bool big = std::fabs(v) >= std::ldexp(1.0, 53);
      bool whole = v == std::floor(v);
      // floor(x) < c, c <= floor(x); ceil(x) <= c, c < ceil(x)
      bool down = r->aux == 1 || (r->aux == 0 && v > 0), up = r->aux == 2 || (r->aux == 0 && v < 0);
      bool low = left ? k == K_FLT : k == K_FLE, high = left ? k == K_FLE : k == K_FLT;
      if (big || (whole && ((down && low) || (up && high))))
        return left ? mkFBin(k, r->a, c) : mkFBin(k, c, r->a);
    }
  }
  return intern(k, cmp ? 1 : w, a, b, nullptr, 0, 0);
}
E mkFConv(Kind k, E a, unsigned w, unsigned aux) {
  if (a->isConst()) return mkConst(foldFC(k, a->val, a->width, w, aux), w);
  // Converting an already rounded value rounds the value itself that way.
  if ((k == K_FP2SI || k == K_FP2UI) && a->kind == K_FRND) { aux = a->aux; a = a->a; }
  if (k == K_FRND && a->kind == K_FRND) return a;
  return intern(k, w, a, nullptr, nullptr, aux, 0);
}

static u128 evalRec(E e, const std::vector<u128>& m) {
  if (e->kind == K_CONST) return e->val;
  if (e->kind == K_VAR) return e->aux < m.size() ? m[e->aux] & maskOf(e->width) : 0;
  if (e->evalStamp == evalGen) return e->evalVal;
  u128 r = 0;
  switch (e->kind) {
    case K_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    case K_CONCAT: r = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
    case K_EXTRACT: r = (evalRec(e->a, m) >> e->aux) & maskOf(e->width); break;
    case K_ZEXT: r = evalRec(e->a, m); break;
    case K_SEXT: r = (u128)sx(evalRec(e->a, m), e->a->width) & maskOf(e->width); break;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FLT: case K_FLE: case K_FEQ: case K_FUNO:
      r = foldF2(e->kind, evalRec(e->a, m), evalRec(e->b, m), e->a->width); break;
    case K_FP2UI: case K_FP2SI: case K_UI2FP: case K_SI2FP: case K_FPEXT: case K_FPTRUNC: case K_FRND:
      r = foldFC(e->kind, evalRec(e->a, m), e->a->width, e->width, e->aux); break;
    case K_AND:
      if (e->width == 1) { r = evalRec(e->a, m) && evalRec(e->b, m); break; }
      r = fold2(e->kind, evalRec(e->a, m), evalRec(e->b, m), e->a->width); break;
    case K_OR:
      if (e->width == 1) { r = evalRec(e->a, m) || evalRec(e->b, m); break; }
      r = fold2(e->kind, evalRec(e->a, m), evalRec(e->b, m), e->a->width); break;
    default: r = fold2(e->kind, evalRec(e->a, m), evalRec(e->b, m), e->a->width); break;
  }
  e->evalStamp = evalGen;
  e->evalVal = r;
  return r;
}
u128 evalExpr(E e, const std::vector<u128>& model) {
  if (e->kind == K_CONST) return e->val;
  ++evalGen;
  return evalRec(e, model);
}

static const char* kn[] = {"const","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","flt","fle","feq","funo","fp2ui","fp2si","ui2fp","si2fp","fpext","fptrunc","frnd","frem"};
std::string exprStr(E e, int d) {
  if (e->isConst()) {
    char buf[64];
    snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->val, e->width);
    return buf;
  }
  if (e->kind == K_VAR) return "v" + std::to_string(e->aux) + ":" + std::to_string(e->width);
  if (d == 0) return "...";
  std::string s = std::string("(") + kn[e->kind];
  if (e->kind == K_EXTRACT) s += "[" + std::to_string(e->aux) + "," + std::to_string(e->width) + "]";
  for (E c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
  return s + ")";
}
