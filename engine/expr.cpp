#include "expr.h"
#include <deque>

std::vector<VarInfo> g_vars;
std::vector<Ex> g_varExprs;
static std::unordered_map<std::string, Ex> g_varByName;
static std::deque<Expr> g_arena;
static uint64_t g_stamp = 1;
uint64_t newStamp() { return ++g_stamp; }
size_t exprCount() { return g_arena.size(); }

// ---- hash consing: open addressing table of Expr* ----
static std::vector<Expr *> g_tab(1 << 16, nullptr);
static size_t g_cnt = 0;
static inline uint64_t hx(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static inline uint64_t hashE(Kind k, unsigned w, uint64_t val, Ex a, Ex b, Ex c) {
  uint64_t h = hx(k * 131 + w, val);
  h = hx(h, a ? a->id + 1 : 0);
  h = hx(h, b ? b->id + 1 : 0);
  return hx(h, c ? c->id + 1 : 0);
}
static void grow() {
  std::vector<Expr *> old;
  old.swap(g_tab);
  g_tab.assign(old.size() * 2, nullptr);
  for (Expr *e : old)
    if (e) {
      size_t i = hashE(e->k, e->w, e->val, e->a, e->b, e->c) & (g_tab.size() - 1);
      while (g_tab[i]) i = (i + 1) & (g_tab.size() - 1);
      g_tab[i] = e;
    }
}
static Ex raw(Kind k, unsigned w, uint64_t val, Ex a = nullptr, Ex b = nullptr, Ex c = nullptr) {
  size_t i = hashE(k, w, val, a, b, c) & (g_tab.size() - 1);
  while (Expr *e = g_tab[i]) {
    if (e->k == k && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c) return e;
    i = (i + 1) & (g_tab.size() - 1);
  }
  g_arena.push_back(Expr{k, (uint8_t)w, (uint32_t)g_arena.size(), val, a, b, c, 0, 0, nullptr, nullptr, nullptr});
  Expr *e = &g_arena.back();
  g_tab[i] = e;
  if (++g_cnt * 2 > g_tab.size()) grow();
  return e;
}

Ex mkConst(unsigned w, uint64_t v) { return raw(K_CONST, w, v & maskw(w)); }
Ex mkVar(const std::string &name, unsigned w) {
  auto it = g_varByName.find(name);
  if (it != g_varByName.end()) return it->second;
  g_vars.push_back({name, w});
  Ex e = raw(K_VAR, w, g_vars.size() - 1);
  g_varExprs.push_back(e);
  g_varByName[name] = e;
  return e;
}

uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  a &= m; b &= m;
  switch (k) {
  case K_ADD: return (a + b) & m;
  case K_SUB: return (a - b) & m;
  case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? (a / b) & m : m;
  case K_UREM: return b ? (a % b) & m : a;
  case K_SDIV: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (!y) return (x < 0 ? 1 : m) & m;
    if (y == -1) return (0 - (uint64_t)x) & m;
    return (uint64_t)(x / y) & m;
  }
  case K_SREM: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (!y) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & m;
  }
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & m;
  case K_LSHR: return b >= w ? 0 : (a >> b) & m;
  case K_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_SLT: return sextw(a, w) < sextw(b, w);
  default: abort();
  }
}

static bool isPow2(uint64_t v) { return v && !(v & (v - 1)); }

Ex mkExtract(Ex a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
  case K_CONST: return mkConst(w, a->val >> lo);
  case K_EXTRACT: return mkExtract(a->a, lo + a->val, w);
  case K_ZEXT:
    if (lo >= a->a->w) return mkConst(w, 0);
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
  case K_SEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo == 0) return mkSext(a->a, w);
    break;
  case K_CONCAT:
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
  case K_AND: case K_OR: case K_XOR:
    return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_ITE:
    if (isC(a->b) || isC(a->c) || w == 1) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case K_ADD: case K_SUB: case K_MUL:
    if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_SHL:
    if (isC(a->b)) {
      uint64_t s = a->b->val;
      if (lo >= s) return mkExtract(a->a, lo - s, w);
      if (lo + w <= s) return mkConst(w, 0);
      return mkConcat(mkExtract(a->a, 0, lo + w - s), mkConst(s - lo, 0));
    }
    break;
  case K_LSHR:
    if (isC(a->b)) {
      uint64_t s = a->b->val;
      if (lo + s >= a->w) return mkConst(w, 0);
      if (lo + s + w <= a->w) return mkExtract(a->a, lo + s, w);
      return mkZext(mkExtract(a->a, lo + s, a->w - lo - s), w);
    }
    break;
  default: break;
  }
  return raw(K_EXTRACT, w, lo, a);
}

Ex mkZext(Ex a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, a->val);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(w, a->b->val), mkConst(w, a->c->val));
  return raw(K_ZEXT, w, 0, a);
}
Ex mkSext(Ex a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, (uint64_t)sextw(a->val, a->w));
  if (a->k == K_SEXT) return mkSext(a->a, w);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (a->w == 1) return mkIte(a, mkConst(w, ~0ull), mkConst(w, 0));
  return raw(K_SEXT, w, 0, a);
}
Ex mkConcat(Ex hi, Ex lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(w, (hi->val << lo->w) | lo->val);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w)
    return mkExtract(hi->a, lo->val, w);
  // (x[..]) . (y . z) with x,y adjacent
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && hi->a == lo->a->a &&
      hi->val == lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->val, hi->w + lo->a->w), lo->b);
  return raw(K_CONCAT, w, 0, hi, lo);
}

Ex mkIte(Ex c, Ex a, Ex b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->k == K_EQ && c->a->w == 1 && isC(c->b) && c->b->val == 0) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->val ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (isC(b)) return b->val ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return raw(K_ITE, a->w, 0, c, a, b);
}

Ex mkEq(Ex a, Ex b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(1, a->val == b->val);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    uint64_t c = b->val;
    if (a->w == 1) {
      if (c == 1) return a;
      // NOT x
      if (a->k == K_EQ && a->a->w == 1 && isC(a->b) && a->b->val == 0) return a->a;
      return raw(K_EQ, 1, 0, a, b);
    }
    switch (a->k) {
    case K_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(a->w, c - a->b->val)); break;
    case K_SUB: if (c == 0) return mkEq(a->a, a->b); break;
    case K_XOR:
      if (c == 0) return mkEq(a->a, a->b);
      if (isC(a->b)) return mkEq(a->a, mkConst(a->w, c ^ a->b->val));
      break;
    case K_ZEXT: return c > maskw(a->a->w) ? mkConst(1, 0) : mkEq(a->a, mkConst(a->a->w, c));
    case K_SEXT: {
      uint64_t t = c & maskw(a->a->w);
      if (((uint64_t)sextw(t, a->a->w) & maskw(a->w)) != c) return mkConst(1, 0);
      return mkEq(a->a, mkConst(a->a->w, t));
    }
    case K_ITE:
      if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
      break;
    case K_CONCAT:
      return mkBin(K_AND, mkEq(a->a, mkConst(a->a->w, c >> a->b->w)), mkEq(a->b, mkConst(a->b->w, c)));
    case K_AND:
      if (isC(a->b) && isPow2(a->b->val)) {
        unsigned bit = __builtin_ctzll(a->b->val);
        if (c & ~a->b->val) return mkConst(1, 0);
        Ex x = mkExtract(a->a, bit, 1);
        return c ? x : mkNot(x);
      }
      if (isC(a->b) && (c & ~a->b->val)) return mkConst(1, 0);
      break;
    case K_OR:
      if (c == 0) return mkBin(K_AND, mkEq(a->a, b), mkEq(a->b, b));
      break;
    case K_SHL:
      if (isC(a->b) && a->b->val < a->w) {
        unsigned s = a->b->val;
        if (c & maskw(s)) return mkConst(1, 0);
        return mkEq(mkExtract(a->a, 0, a->w - s), mkConst(a->w - s, c >> s));
      }
      break;
    default: break;
    }
  } else {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b))
      return mkEq(a->a, mkBin(K_ADD, b->a, mkConst(a->w, b->b->val - a->b->val)));
    if (a->k == K_ADD && isC(a->b) && a->a == b) return mkConst(1, a->b->val == 0);
    if (b->k == K_ADD && isC(b->b) && b->a == a) return mkConst(1, b->b->val == 0);
    if (a->id > b->id) std::swap(a, b);
  }
  return raw(K_EQ, 1, 0, a, b);
}

Ex mkUlt(Ex a, Ex b) {
  if (a == b) return mkConst(1, 0);
  if (isC(a) && isC(b)) return mkConst(1, a->val < b->val);
  if (a->w == 1) return mkBin(K_AND, mkNot(a), b);
  if (isC(b)) {
    uint64_t c = b->val;
    if (c == 0) return mkConst(1, 0);
    if (c == 1) return mkEq(a, mkConst(a->w, 0));
    if (c == maskw(a->w)) return mkNot(mkEq(a, b));
    if (a->k == K_ZEXT) return c > maskw(a->a->w) ? mkConst(1, 1) : mkUlt(a->a, mkConst(a->a->w, c));
    if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
  } else if (isC(a)) {
    uint64_t c = a->val;
    if (c == maskw(a->w)) return mkConst(1, 0);
    if (c == 0) return mkNot(mkEq(b, a));
    if (b->k == K_ZEXT) return c >= maskw(b->a->w) ? mkConst(1, 0) : mkUlt(mkConst(b->a->w, c), b->a);
    if (b->k == K_ITE && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
  } else {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  }
  return raw(K_ULT, 1, 0, a, b);
}
Ex mkSlt(Ex a, Ex b) {
  if (a == b) return mkConst(1, 0);
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(1, sextw(a->val, w) < sextw(b->val, w));
  if (w == 1) return mkBin(K_AND, a, mkNot(b));
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (isC(b)) {
    int64_t c = sextw(b->val, w);
    if (a->k == K_ZEXT) return c <= 0 ? mkConst(1, 0) : mkUlt(a, b);
    if (a->k == K_SEXT) {
      unsigned iw = a->a->w;
      int64_t hi = (int64_t)(maskw(iw) >> 1), lo = -hi - 1;
      if (c > hi) return mkConst(1, 1);
      if (c <= lo) return mkConst(1, 0);
      return mkSlt(a->a, mkConst(iw, (uint64_t)c));
    }
    if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
    // sign of (zext x - zext y)
    if (c == 0 && a->k == K_SUB && a->a->k == K_ZEXT && a->b->k == K_ZEXT && a->a->a->w == a->b->a->w &&
        a->a->a->w < w)
      return mkUlt(a->a->a, a->b->a);
  } else if (isC(a)) {
    int64_t c = sextw(a->val, w);
    if (b->k == K_ZEXT) return c < 0 ? mkConst(1, 1) : mkUlt(a, b);
    if (b->k == K_SEXT) {
      unsigned iw = b->a->w;
      int64_t hi = (int64_t)(maskw(iw) >> 1), lo = -hi - 1;
      if (c >= hi) return mkConst(1, 0);
      if (c < lo) return mkConst(1, 1);
      return mkSlt(mkConst(iw, (uint64_t)c), b->a);
    }
    if (b->k == K_ITE && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
    if (sextw(a->val, w) == -1 && b->k == K_SUB && b->a->k == K_ZEXT && b->b->k == K_ZEXT &&
        b->a->a->w == b->b->a->w && b->a->a->w < w)
      return mkNot(mkUlt(b->a->a, b->b->a));
  }
  return raw(K_SLT, 1, 0, a, b);
}

Ex mkBin(Kind k, Ex a, Ex b) {
  switch (k) {
  case K_EQ: return mkEq(a, b);
  case K_ULT: return mkUlt(a, b);
  case K_SLT: return mkSlt(a, b);
  default: break;
  }
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(k, w, a->val, b->val));
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  switch (k) {
  case K_SUB:
    if (a == b) return mkConst(w, 0);
    if (isC(b)) return mkBin(K_ADD, a, mkConst(w, 0 - b->val));
    if (a->k == K_ADD && isC(a->b)) {
      if (a->a == b) return a->b;
      if (b->k == K_ADD && isC(b->b))
        return mkBin(K_ADD, mkBin(K_SUB, a->a, b->a), mkConst(w, a->b->val - b->b->val));
      return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
    }
    if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(w, 0 - b->b->val));
    if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->k == K_SUB && b->a == a) return b->b; // a-(a-x)
    break;
  case K_ADD:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(w, a->b->val + b->val));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    } else {
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (a->k == K_SUB && a->b == b) return a->a;
      if (b->k == K_SUB && b->b == a) return b->a;
    }
    break;
  case K_MUL:
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      if (isPow2(b->val)) return mkBin(K_SHL, a, mkConst(w, __builtin_ctzll(b->val)));
    }
    break;
  case K_UDIV:
    if (isC(b) && b->val == 1) return a;
    if (isC(b) && isPow2(b->val)) return mkBin(K_LSHR, a, mkConst(w, __builtin_ctzll(b->val)));
    break;
  case K_UREM:
    if (isC(b) && isPow2(b->val)) return mkBin(K_AND, a, mkConst(w, b->val - 1));
    break;
  case K_AND:
    if (a == b) return a;
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == maskw(w)) return a;
      if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(w, a->b->val & b->val));
      // low mask => zext(extract)
      if (isPow2(b->val + 1)) {
        unsigned n = __builtin_ctzll(b->val + 1);
        return mkZext(mkExtract(a, 0, n), w);
      }
    } else if (w == 1) {
      if (a == mkNot(b)) return mkConst(1, 0);
      if (a->k == K_AND && (a->a == b || a->b == b)) return a;
      if (b->k == K_AND && (b->a == a || b->b == a)) return b;
    }
    break;
  case K_OR:
    if (a == b) return a;
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val == maskw(w)) return b;
    } else if (w == 1) {
      if (a == mkNot(b)) return mkConst(1, 1);
    }
    break;
  case K_XOR:
    if (a == b) return mkConst(w, 0);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (w == 1) return mkNot(a);
      if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(w, a->b->val ^ b->val));
    }
    break;
  case K_SHL: case K_LSHR:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val >= w) return mkConst(w, 0);
      if (k == K_LSHR && a->k == K_ZEXT && b->val >= a->a->w) return mkConst(w, 0);
      if (a->k == k && isC(a->b)) {
        uint64_t s = a->b->val + b->val;
        return s >= w ? mkConst(w, 0) : mkBin(k, a->a, mkConst(w, s));
      }
    }
    if (isC(a) && a->val == 0) return a;
    break;
  case K_ASHR:
    if (isC(b) && b->val == 0) return a;
    break;
  default: break;
  }
  return raw(k, w, 0, a, b);
}

uint64_t evalExpr(Ex e, const std::vector<uint64_t> &m, uint64_t st) {
  if (e->k == K_CONST) return e->val;
  if (e->k == K_VAR) return e->val < m.size() ? m[e->val] & maskw(e->w) : 0;
  if (e->stamp == st) return e->cval;
  uint64_t r;
  switch (e->k) {
  case K_ITE: r = evalExpr(e->a, m, st) ? evalExpr(e->b, m, st) : evalExpr(e->c, m, st); break;
  case K_ZEXT: r = evalExpr(e->a, m, st); break;
  case K_SEXT: r = (uint64_t)sextw(evalExpr(e->a, m, st), e->a->w) & maskw(e->w); break;
  case K_EXTRACT: r = (evalExpr(e->a, m, st) >> e->val) & maskw(e->w); break;
  case K_CONCAT: r = (evalExpr(e->a, m, st) << e->b->w) | evalExpr(e->b, m, st); break;
  default: r = foldBin(e->k, e->a->w, evalExpr(e->a, m, st), evalExpr(e->b, m, st));
  }
  e->stamp = st; e->cval = r;
  return r;
}

Ex substExpr(Ex e, const std::unordered_map<Ex, Ex> &m, uint64_t st) {
  if (e->k == K_CONST) return e;
  if (e->stamp == st) return (Ex)e->cval;
  Ex r = e;
  auto it = m.find(e);
  if (it != m.end()) r = it->second;
  else if (e->k != K_VAR) {
    Ex a = substExpr(e->a, m, st);
    if (e->k == K_ITE) {
      if (isC(a)) r = substExpr(a->val ? e->b : e->c, m, st);
      else {
        Ex b = substExpr(e->b, m, st), c = substExpr(e->c, m, st);
        if (a != e->a || b != e->b || c != e->c) r = mkIte(a, b, c);
      }
    } else if (e->k == K_ZEXT) { if (a != e->a) r = mkZext(a, e->w); }
    else if (e->k == K_SEXT) { if (a != e->a) r = mkSext(a, e->w); }
    else if (e->k == K_EXTRACT) { if (a != e->a) r = mkExtract(a, e->val, e->w); }
    else {
      Ex b = substExpr(e->b, m, st);
      if (a != e->a || b != e->b) r = e->k == K_CONCAT ? mkConcat(a, b) : mkBin(e->k, a, b);
    }
    if (r != e && !isC(r)) {
      auto j = m.find(r);
      if (j != m.end()) r = j->second;
    }
  }
  e->stamp = st; e->cval = (uint64_t)r;
  return r;
}

static const char *kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl",
  "lshr","ashr","eq","ult","slt","ite","zext","sext","extract","concat"};
std::string show(Ex e, int d) {
  if (!e) return "nil";
  if (e->k == K_CONST) return std::to_string(e->val) + ":" + std::to_string(e->w);
  if (e->k == K_VAR) return g_vars[e->val].name;
  if (d <= 0) return "..";
  std::string s = std::string("(") + kn[e->k];
  if (e->k == K_EXTRACT) s += "@" + std::to_string(e->val) + "+" + std::to_string(e->w);
  for (Ex x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1);
  return s + ")";
}
