// Hash-consed bit-vector expressions (width 1..64) with light simplification.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND,
  K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_ITE, K_ZEXT,
  K_SEXT, K_EXTRACT, K_CONCAT
};

struct Expr {
  Kind k;
  uint8_t w;
  uint32_t id;
  uint64_t val; // constant / variable index / extract low bit
  const Expr *a, *b, *c;
  mutable uint64_t stamp;    // memo stamp for eval / substitution
  mutable uint64_t cval;     // memo value (eval) or pointer (substitution)
  mutable void *zbv, *zbool; // Z3 translations
  mutable void *lit;         // Z3 assumption literal
};
typedef const Expr *Ex;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<Ex> g_varExprs;

Ex mkConst(unsigned w, uint64_t v);
Ex mkVar(const std::string &name, unsigned w); // same name => same variable
Ex mkBin(Kind k, Ex a, Ex b);
Ex mkEq(Ex a, Ex b);
Ex mkUlt(Ex a, Ex b);
Ex mkSlt(Ex a, Ex b);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkZext(Ex a, unsigned w);
Ex mkSext(Ex a, unsigned w);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
static inline Ex mkNot(Ex a) { return mkEq(a, mkConst(1, 0)); }
static inline bool isC(Ex e) { return e->k == K_CONST; }
uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b);
uint64_t newStamp();
// value of e under model (indexed by variable; missing variables are 0)
uint64_t evalExpr(Ex e, const std::vector<uint64_t> &model, uint64_t stamp);
// rebuild e with the replacements in m (a node maps to its replacement)
Ex substExpr(Ex e, const std::unordered_map<Ex, Ex> &m, uint64_t stamp);
std::string show(Ex e, int depth = 6);
size_t exprCount();
