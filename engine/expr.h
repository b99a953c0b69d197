// Hash-consed bit-vector expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point over IEEE bit patterns (width 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FLT, K_FLE, K_FEQ, K_FUNO,
  K_FP2UI, K_FP2SI, K_UI2FP, K_SI2FP, K_FPEXT, K_FPTRUNC,
  K_FRND,  // aux = rounding: 0 RTZ(trunc) 1 RTN(floor) 2 RTP(ceil) 3 RNE 4 RNA
  K_FREM_UNSUP,
};

struct Expr {
  Kind kind;
  uint8_t flags;     // 1: contains FP, 2: contains hard arithmetic
  uint16_t width;
  uint32_t id;
  uint32_t aux;      // var ordinal / extract offset / rounding mode
  uint32_t depth;
  const Expr *a, *b, *c;
  u128 val;          // constants
  mutable Z3_ast z;
  mutable uint64_t evalStamp;
  mutable u128 evalVal;
  mutable Expr* next; // hash chain
  bool isConst() const { return kind == K_CONST; }
  bool isTrue() const { return kind == K_CONST && width == 1 && val == 1; }
  bool isFalse() const { return kind == K_CONST && width == 1 && val == 0; }
};
typedef const Expr* E;

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  return (s128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(uint32_t ordinal, unsigned w);
inline E mkBool(bool b) { return mkConst(b, 1); }
E mkBin(Kind k, E a, E b);
bool noSignedOverflow(Kind k, E a, E b);
// e = sum of the terms' unsigned values, with their signs, + c (modulo 2^width), within [lo, hi]
bool linearForm(E e, std::vector<std::pair<E, int>>& t, __int128& c, __int128& lo, __int128& hi);
u128 upperBound(E e);
E mkEq(E a, E b);
E mkNot(E a);
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFBin(Kind k, E a, E b);          // FADD.. and compares (result width 1)
E mkFConv(Kind k, E a, unsigned w, unsigned aux = 0);
inline E mkAnd(E a, E b) { return mkBin(K_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(K_OR, a, b); }
inline E mkUlt(E a, E b) { return mkBin(K_ULT, a, b); }
inline E mkUle(E a, E b) { return mkBin(K_ULE, a, b); }

// Evaluation under a model: vals[ordinal]; missing ordinals read as 0.
u128 evalExpr(E e, const std::vector<u128>& model);
size_t exprCount();
std::string exprStr(E e, int depth = 6);
