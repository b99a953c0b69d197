#include "solver.h"
#include <algorithm>
#include <sys/time.h>
#include <unistd.h>

static std::unordered_map<E, VarSet> varCache;
static void collect(E e, VarSet& out, std::unordered_map<E, bool>& seen) {
  if (e->kind == K_CONST) return;
  if (e->kind == K_VAR) {
    size_t i = e->aux / 64;
    if (out.size() <= i) out.resize(i + 1);
    out[i] |= 1ULL << (e->aux % 64);
    return;
  }
  auto it = varCache.find(e);
  if (it != varCache.end()) { unite(out, it->second); return; }
  if (!seen.emplace(e, true).second) return;
  for (E c : {e->a, e->b, e->c}) if (c) collect(c, out, seen);
}
const VarSet& varsOf(E e) {
  auto it = varCache.find(e);
  if (it != varCache.end()) return it->second;
  VarSet vs;
  std::unordered_map<E, bool> seen;
  collect(e, vs, seen);
  return varCache.emplace(e, std::move(vs)).first->second;
}

static uint64_t nowUs() { timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec * 1000000ULL + tv.tv_usec; }

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); abort(); }

Solver::Solver() : ctx(nullptr) { reset(); }
void Solver::reset() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  for (auto e : translated) e->z = nullptr;
  translated.clear();
}

// All bit-vector sorted; booleans are represented as BV1 except that comparison
// results are wrapped in ite.
Z3_ast Solver::tr(E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  auto bsort = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
  auto bv1 = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int(ctx, 1, bsort(1)), Z3_mk_unsigned_int(ctx, 0, bsort(1))); };
  auto isTrue = [&](Z3_ast b) { return Z3_mk_eq(ctx, b, Z3_mk_unsigned_int(ctx, 1, bsort(1))); };
  auto fsort = [&](unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); };
  auto tofp = [&](Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, a, fsort(w)); };
  auto rne = [&]() { return Z3_mk_fpa_rne(ctx); };
  auto rounding = [&](unsigned aux) {
    return aux == 0 ? Z3_mk_fpa_rtz(ctx) : aux == 1 ? Z3_mk_fpa_rtn(ctx) : aux == 2 ? Z3_mk_fpa_rtp(ctx) : aux == 3 ? rne() : Z3_mk_fpa_rna(ctx);
  };
  auto tobv = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
  switch (e->kind) {
    case K_CONST: {
      if (e->width <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, bsort(e->width));
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(e->val >> 64), bsort(e->width - 64)),
                            Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, bsort(64)));
      break;
    }
    case K_VAR: {
      char nm[48];
      snprintf(nm, sizeof nm, "v%u_%u", e->aux, e->width);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bsort(e->width));
      break;
    }
    case K_ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case K_AND: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case K_OR: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case K_EQ: r = bv1(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
    case K_ULT: r = bv1(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
    case K_ULE: r = bv1(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
    case K_SLT: r = bv1(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
    case K_SLE: r = bv1(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
    case K_ITE: r = Z3_mk_ite(ctx, isTrue(tr(e->a)), tr(e->b), tr(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, tr(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->width - e->a->width, tr(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->a->width, tr(e->a)); break;
    case K_FADD: r = tobv(Z3_mk_fpa_add(ctx, rne(), tofp(tr(e->a), e->width), tofp(tr(e->b), e->width))); break;
    case K_FSUB: r = tobv(Z3_mk_fpa_sub(ctx, rne(), tofp(tr(e->a), e->width), tofp(tr(e->b), e->width))); break;
    case K_FMUL: r = tobv(Z3_mk_fpa_mul(ctx, rne(), tofp(tr(e->a), e->width), tofp(tr(e->b), e->width))); break;
    case K_FDIV: r = tobv(Z3_mk_fpa_div(ctx, rne(), tofp(tr(e->a), e->width), tofp(tr(e->b), e->width))); break;
    case K_FLT: r = bv1(Z3_mk_fpa_lt(ctx, tofp(tr(e->a), e->a->width), tofp(tr(e->b), e->a->width))); break;
    case K_FLE: r = bv1(Z3_mk_fpa_leq(ctx, tofp(tr(e->a), e->a->width), tofp(tr(e->b), e->a->width))); break;
    case K_FEQ: r = bv1(Z3_mk_fpa_eq(ctx, tofp(tr(e->a), e->a->width), tofp(tr(e->b), e->a->width))); break;
    case K_FUNO: {
      Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, tofp(tr(e->a), e->a->width)), Z3_mk_fpa_is_nan(ctx, tofp(tr(e->b), e->a->width))};
      r = bv1(Z3_mk_or(ctx, 2, o)); break;
    }
    case K_FP2UI: r = Z3_mk_fpa_to_ubv(ctx, rounding(e->aux), tofp(tr(e->a), e->a->width), e->width); break;
    case K_FP2SI: r = Z3_mk_fpa_to_sbv(ctx, rounding(e->aux), tofp(tr(e->a), e->a->width), e->width); break;
    case K_UI2FP: r = tobv(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), tr(e->a), fsort(e->width))); break;
    case K_SI2FP: r = tobv(Z3_mk_fpa_to_fp_signed(ctx, rne(), tr(e->a), fsort(e->width))); break;
    case K_FPEXT: case K_FPTRUNC:
      r = tobv(Z3_mk_fpa_to_fp_float(ctx, rne(), tofp(tr(e->a), e->a->width), fsort(e->width))); break;
    case K_FRND: r = tobv(Z3_mk_fpa_round_to_integral(ctx, rounding(e->aux), tofp(tr(e->a), e->a->width))); break;
    default: abort();
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  translated.push_back(e);
  return r;
}

static const unsigned kFirstTry = 100000;

std::string Solver::dumpSmt2(const std::vector<E>& cons, E cond) {
  Z3_solver s = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_ast one = Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  for (E c : cons) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(c), one));
  Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(cond), one));
  std::string r = Z3_solver_to_string(ctx, s);
  Z3_solver_dec_ref(ctx, s);
  return "(set-logic ALL)\n" + r + "(check-sat)\n";
}

// Queries that are only comparisons of sums which cannot wrap around are linear
// integer arithmetic, which decides long ones much faster than bits do.  Every
// variable (or disjoint part of one) becomes an integer of its own range; a
// query using one in any other way is not translated.
namespace {
struct Lia {
  Z3_context c;
  std::unordered_map<E, Z3_ast> atoms;
  std::vector<E> order;
  std::vector<Z3_ast> side;
  bool ok = true;
  Z3_ast num(__int128 v) {
    bool neg = v < 0;
    u128 u = neg ? -(u128)v : (u128)v;
    std::string s;
    do { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u);
    if (neg) s.insert(s.begin(), '-');
    return Z3_mk_numeral(c, s.c_str(), Z3_mk_int_sort(c));
  }
  Z3_ast atom(E e) {
    auto it = atoms.find(e);
    if (it != atoms.end()) return it->second;
    E v = e->kind == K_EXTRACT ? e->a : e;
    unsigned off = e->kind == K_EXTRACT ? e->aux : 0;
    for (E o : order) {
      E ov = o->kind == K_EXTRACT ? o->a : o;
      unsigned oo = o->kind == K_EXTRACT ? o->aux : 0;
      if (ov == v && off < oo + o->width && oo < off + e->width) { ok = false; break; }
    }
    std::string n = "i" + std::to_string(order.size());
    Z3_ast r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_int_sort(c));
    side.push_back(Z3_mk_ge(c, r, num(0)));
    side.push_back(Z3_mk_lt(c, r, num((__int128)1 << e->width)));
    atoms[e] = r;
    order.push_back(e);
    return r;
  }
  Z3_ast fail() { ok = false; return num(0); } 
  Z3_ast toInt(E e, bool sgn) {
    if (!ok || e->width > 64) return fail();
    if (e->kind == K_CONST) {
      u128 v = e->val;
      if (sgn && (v >> (e->width - 1))) return num((__int128)v - ((__int128)1 << e->width));
      return num((__int128)v);
    }
    __int128 h = (__int128)1 << (e->width - 1);
    switch (e->kind) {
      case K_ADD: case K_SUB: {
        std::vector<std::pair<E, int>> t;
        __int128 k, lo, hi;
        if (!linearForm(e, t, k, lo, hi)) return fail();
        if (sgn ? lo < -h || hi >= h : lo < 0 || hi >= 2 * h) return fail();
        std::vector<Z3_ast> a;
        for (auto& x : t) { Z3_ast i = toInt(x.first, false); a.push_back(x.second > 0 ? i : Z3_mk_unary_minus(c, i)); }
        a.push_back(num(k));
        return Z3_mk_add(c, a.size(), a.data());
      }
      case K_ZEXT: return toInt(e->a, false);
      case K_SEXT: if (!sgn) return fail(); return toInt(e->a, true);
      case K_ITE: return Z3_mk_ite(c, toBool(e->a), toInt(e->b, sgn), toInt(e->c, sgn));
      case K_MUL: {
        if (!e->b->isConst() || upperBound(e) == (e->width == 64 ? (u128)~0ull : ((u128)1 << e->width) - 1)) return fail();
        if (sgn && upperBound(e) >= (u128)h) return fail();
        Z3_ast a[2] = {toInt(e->a, false), num((__int128)e->b->val)};
        return Z3_mk_mul(c, 2, a);
      }
      case K_EXTRACT:
        if (e->a->kind != K_VAR) return fail();
        // fallthrough
      case K_VAR:
        if (sgn) { Z3_ast a = atom(e); Z3_ast s[2] = {a, num(2 * h)}; return Z3_mk_ite(c, Z3_mk_lt(c, a, num(h)), a, Z3_mk_sub(c, 2, s)); }
        return atom(e);
      default: return fail();
    }
  }
  bool fits(E e, bool sgn) {
    if (e->kind != K_ADD && e->kind != K_SUB) return true;
    std::vector<std::pair<E, int>> t;
    __int128 k, lo, hi, h = (__int128)1 << (e->width - 1);
    return linearForm(e, t, k, lo, hi) && (sgn ? lo >= -h && hi < h : lo >= 0 && hi < 2 * h);
  }
  Z3_ast toBool(E e) {
    if (!ok) return Z3_mk_true(c);
    switch (e->kind) {
      case K_CONST: return e->val ? Z3_mk_true(c) : Z3_mk_false(c);
      case K_AND: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_and(c, 2, a); }
      case K_OR: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_or(c, 2, a); }
      case K_XOR: return Z3_mk_xor(c, toBool(e->a), toBool(e->b));
      case K_ITE: return Z3_mk_ite(c, toBool(e->a), toBool(e->b), toBool(e->c));
      case K_EQ: {
        if (e->a->width == 1) return Z3_mk_iff(c, toBool(e->a), toBool(e->b));
        bool s = !(fits(e->a, false) && fits(e->b, false));
        return Z3_mk_eq(c, toInt(e->a, s), toInt(e->b, s));
      }
      case K_ULT: return Z3_mk_lt(c, toInt(e->a, false), toInt(e->b, false));
      case K_ULE: return Z3_mk_le(c, toInt(e->a, false), toInt(e->b, false));
      case K_SLT: return Z3_mk_lt(c, toInt(e->a, true), toInt(e->b, true));
      case K_SLE: return Z3_mk_le(c, toInt(e->a, true), toInt(e->b, true));
      case K_VAR: return Z3_mk_eq(c, atom(e), num(1));
      case K_EXTRACT: if (e->a->kind == K_VAR) return Z3_mk_eq(c, atom(e), num(1)); ok = false; return Z3_mk_true(c);
      default: ok = false; return Z3_mk_true(c);
    }
  }
};
}

Res Solver::check(const std::vector<E>& cons, E cond, std::vector<u128>& model) {
  stats.queries++;
  if (cond->isConst()) return cond->val ? SAT : UNSAT;
  if (evalExpr(cond, model)) return SAT;
  E neg = mkNot(cond);
  for (E c : cons) { if (c == cond) { return SAT; } if (c == neg) { stats.cacheHits++; return UNSAT; } }
  // slice
  VarSet vs = varsOf(cond);
  std::vector<E> sl;
  std::vector<char> used(cons.size(), 0);
  bool changed = true;
  uint8_t flags = cond->flags;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < cons.size(); i++) {
      if (used[i]) continue;
      const VarSet& cv = varsOf(cons[i]);
      if (!intersects(cv, vs)) continue;
      used[i] = 1;
      sl.push_back(cons[i]);
      flags |= cons[i]->flags;
      if (!subset(cv, vs)) { unite(vs, cv); changed = true; }
    }
  }
  std::vector<uint32_t> key;
  key.reserve(sl.size() + 1);
  for (E c : sl) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.push_back(cond->id);
  auto it = cache.find(key);
  if (it != cache.end()) {
    stats.cacheHits++;
    if (it->second.r == SAT)
      for (auto& p : it->second.model) { if (model.size() <= p.first) model.resize(p.first + 1); model[p.first] = p.second; }
    return it->second.r;
  }
  uint64_t t0 = nowUs();
  stats.z3calls++;
  Z3_ast one = Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  Z3_solver s = slv;
  bool own = false;
  if (const char* dq = getenv("JSYM_DUMPQ")) { FILE* f = fopen((dq + std::to_string(getpid())).c_str(), "w"); std::string d = dumpSmt2(sl, cond); fputs(d.c_str(), f); fclose(f); }
  Z3_lbool lr = Z3_L_UNDEF;
  auto setLimit = [&](unsigned lim) {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), lim);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
  };
  auto run = [&]() {
    for (E c : sl) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(c), one));
    Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(cond), one));
    lr = Z3_solver_check(ctx, s);
  };
  if (!(flags & 3)) {
    // the incremental solver first, for a while
    Z3_solver_push(ctx, s);
    setLimit(kFirstTry);
    run();
    if (lr == Z3_L_UNDEF) { Z3_solver_pop(ctx, s, 1); stats.retries++; }
  }
  Lia lia{ctx};
  bool integer = false;
  if (lr == Z3_L_UNDEF && !(flags & 3)) {
    std::vector<Z3_ast> f;
    for (E c : sl) f.push_back(lia.toBool(c));
    f.push_back(lia.toBool(cond));
    if (lia.ok) {
      Z3_solver o = s;
      s = Z3_mk_simple_solver(ctx);
      Z3_solver_inc_ref(ctx, s);
      setLimit(500000);
      for (Z3_ast x : f) Z3_solver_assert(ctx, s, x);
      for (Z3_ast x : lia.side) Z3_solver_assert(ctx, s, x);
      lr = Z3_solver_check(ctx, s);
      if (lr != Z3_L_UNDEF) { own = integer = true; stats.lia++; } else { Z3_solver_dec_ref(ctx, s); s = o; }
    }
  }
  if (lr == Z3_L_UNDEF) {
    own = true;
    if (flags & 1) stats.fpcalls++;
    Z3_tactic t = Z3_mk_tactic(ctx, flags & 1 ? "qffpbv" : "qfbv");
    Z3_tactic_inc_ref(ctx, t);
    s = Z3_mk_solver_from_tactic(ctx, t);
    Z3_solver_inc_ref(ctx, s);
    Z3_tactic_dec_ref(ctx, t);
    if (rlimit) setLimit(rlimit);
    run();
  }
  Cached cr;
  cr.r = lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (cr.r == SAT) {
    stats.sat++;
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    // read all variables of the slice
    std::vector<E> varExprs;
    {
      std::unordered_map<E, bool> seen;
      std::vector<E> st(sl.begin(), sl.end());
      st.push_back(cond);
      while (!st.empty()) {
        E e = st.back(); st.pop_back();
        if (e->kind == K_CONST || !seen.emplace(e, true).second) continue;
        if (e->kind == K_VAR) { varExprs.push_back(e); continue; }
        for (E c : {e->a, e->b, e->c}) if (c) st.push_back(c);
      }
    }
    if (integer) {
      std::map<uint32_t, u128> vals;
      for (E v : varExprs) vals[v->aux] = 0;
      for (E a : lia.order) {
        Z3_ast out = nullptr;
        uint64_t u = 0;
        if (!Z3_model_eval(ctx, m, lia.atoms[a], true, &out) || !Z3_get_numeral_uint64(ctx, out, &u)) { fprintf(stderr, "numeral?\n"); abort(); }
        E v = a->kind == K_EXTRACT ? a->a : a;
        vals[v->aux] |= (u128)u << (a->kind == K_EXTRACT ? a->aux : 0);
      }
      for (auto& x : vals) cr.model.push_back(x);
      varExprs.clear();
    }
    for (E v : varExprs) {
      Z3_ast out = nullptr;
      u128 val = 0;
      if (Z3_model_eval(ctx, m, tr(v), true, &out) && out) {
        Z3_inc_ref(ctx, out);
        if (v->width <= 64) {
          uint64_t u = 0;
          if (!Z3_get_numeral_uint64(ctx, out, &u)) { fprintf(stderr, "numeral?\n"); abort(); }
          val = u;
        } else {
          const char* str = Z3_get_numeral_string(ctx, out);
          for (; *str; str++) val = val * 10 + (*str - '0');
        }
        Z3_dec_ref(ctx, out);
      }
      cr.model.push_back({v->aux, val});
    }
    Z3_model_dec_ref(ctx, m);
    for (auto& p : cr.model) { if (model.size() <= p.first) model.resize(p.first + 1); model[p.first] = p.second; }
  } else if (cr.r == UNSAT) stats.unsat++;
  else stats.unknown++;
  if (own) Z3_solver_dec_ref(ctx, s); else Z3_solver_pop(ctx, s, 1);
  uint64_t dt = nowUs() - t0;
  stats.usec += dt;
  if (getenv("JSYM_SLOWQ") && dt > 200000) {
    std::string d = dumpSmt2(sl, cond);
    fprintf(stderr, "SLOW query %llu us r=%d\n%s\n", (unsigned long long)dt, cr.r, d.substr(0, 3000).c_str());
  }
  if (crossHook && crossEvery && cr.r != UNKNOWN && stats.z3calls % crossEvery == 0)
    crossHook(dumpSmt2(sl, cond), cr.r == SAT);
  // sanity: the model must satisfy the query (guards against solver / translation bugs)
  if (cr.r == SAT && !(flags & 1)) {
    if (!evalExpr(cond, model)) { fprintf(stderr, "jsym: model does not satisfy query\n"); abort(); }
    for (E c : sl) if (!evalExpr(c, model)) { fprintf(stderr, "jsym: model does not satisfy constraint\n"); abort(); }
  }
  if (cr.r == SAT && (flags & 1)) {
    bool ok = evalExpr(cond, model);
    for (E c : sl) ok = ok && evalExpr(c, model);
    if (!ok) { fprintf(stderr, "jsym: FP model does not satisfy query concretely\n"); cr.r = UNKNOWN; stats.unknown++; }
  }
  Res rr = cr.r;
  cache.emplace(std::move(key), std::move(cr));
  return rr;
}
