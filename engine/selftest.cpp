// Differential test of the expression simplifier: the simplified expression and
// a direct evaluation must agree on random values; substitution likewise.
#include "expr.h"
#include <cstdio>
#include <random>
struct N { Kind k; unsigned w; uint64_t val; int a, b, c; };
static std::vector<N> ns;
static std::mt19937_64 rng(1);
static uint64_t special(unsigned w) {
  static const uint64_t sp[] = {0, 1, 2, 3, 7, 8, 63, 64, 97, 127, 128, 255, 256, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1};
  return (rng() % 3 ? sp[rng() % 17] : rng()) & maskw(w);
}
static uint64_t ev(int i, const std::vector<uint64_t> &m) {
  N &n = ns[i];
  switch (n.k) {
  case K_CONST: return n.val & maskw(n.w);
  case K_VAR: return m[n.val] & maskw(n.w);
  case K_ITE: return ev(n.a, m) ? ev(n.b, m) : ev(n.c, m);
  case K_ZEXT: return ev(n.a, m);
  case K_SEXT: return (uint64_t)sextw(ev(n.a, m), ns[n.a].w) & maskw(n.w);
  case K_EXTRACT: return (ev(n.a, m) >> n.val) & maskw(n.w);
  case K_CONCAT: return ((ev(n.a, m) << ns[n.b].w) | ev(n.b, m)) & maskw(n.w);
  default: return foldBin(n.k, ns[n.a].w, ev(n.a, m), ev(n.b, m));
  }
}
static Ex build(int i) {
  N &n = ns[i];
  switch (n.k) {
  case K_CONST: return mkConst(n.w, n.val);
  case K_VAR: return g_varExprs[n.val];
  case K_ITE: return mkIte(build(n.a), build(n.b), build(n.c));
  case K_ZEXT: return mkZext(build(n.a), n.w);
  case K_SEXT: return mkSext(build(n.a), n.w);
  case K_EXTRACT: return mkExtract(build(n.a), n.val, n.w);
  case K_CONCAT: return mkConcat(build(n.a), build(n.b));
  default: return mkBin(n.k, build(n.a), build(n.b));
  }
}
static unsigned vw[] = {8, 8, 64, 64, 1, 32, 16};
static int gen(unsigned w, int d) {
  N n{K_CONST, w, 0, -1, -1, -1};
  auto put = [&]() { ns.push_back(n); return (int)ns.size() - 1; };
  if (d <= 0 || rng() % 8 == 0) {
    std::vector<int> c;
    for (int i = 0; i < 7; i++) if (vw[i] == w) c.push_back(i);
    if (!c.empty() && rng() % 4) { n.k = K_VAR; n.val = c[rng() % c.size()]; }
    else n.val = special(w);
    return put();
  }
  static const unsigned ws[] = {1, 8, 16, 32, 64};
  while (true) {
    unsigned k = rng() % 9;
    if (k == 0) { n.k = K_ITE; int a = gen(1, d - 1), b = gen(w, d - 1), c = gen(w, d - 1); n.a = a; n.b = b; n.c = c; return put(); }
    if (k == 1 && w > 1) { unsigned s = ws[rng() % 5]; if (s >= w) continue; n.k = rng() % 2 ? K_ZEXT : K_SEXT; n.a = gen(s, d - 1); return put(); }
    if (k == 2) { unsigned s = ws[rng() % 5]; if (s <= w) continue; n.k = K_EXTRACT; n.a = gen(s, d - 1); n.val = rng() % (s - w + 1); if (rng() % 2) n.val &= ~7ull; return put(); }
    if (k == 3 && w >= 16) { unsigned l = w / 2; if (w == 32 && rng() % 2) l = 8; n.k = K_CONCAT;
      // widths from the list only
      if (w - l != 8 && w - l != 16 && w - l != 32) l = w / 2;
      int a = gen(w - l, d - 1), b = gen(l, d - 1); n.a = a; n.b = b; return put(); }
    if (w == 1) { n.k = (Kind)(K_EQ + rng() % 3); unsigned s = ws[rng() % 5]; int a = gen(s, d - 1), b = gen(s, d - 1); n.a = a; n.b = b; return put(); }
    n.k = (Kind)(K_ADD + rng() % (K_ASHR - K_ADD + 1));
    int a = gen(w, d - 1), b = gen(w, d - 1);
    n.a = a; n.b = b;
    return put();
  }
}
int main() {
  for (int i = 0; i < 7; i++) mkVar("v" + std::to_string(i), vw[i]);
  long checked = 0;
  for (int t = 0; t < 400000; t++) {
    ns.clear();
    static const unsigned ws[] = {1, 1, 8, 32, 64};
    int r = gen(ws[rng() % 5], 1 + rng() % 5);
    Ex e = build(r);
    if (e->w != ns[r].w) { printf("width mismatch\n"); return 1; }
    for (int q = 0; q < 8; q++) {
      std::vector<uint64_t> m;
      for (int i = 0; i < 7; i++) m.push_back(special(vw[i]));
      uint64_t x = ev(r, m), y = evalExpr(e, m, newStamp());
      checked++;
      if (x != y) { printf("MISMATCH want %lx got %lx: %s\n", x, y, show(e, 20).c_str()); return 1; }
      // substitution of two variables by their values
      std::unordered_map<Ex, Ex> sm;
      int i = rng() % 7, j = rng() % 7;
      sm[g_varExprs[i]] = mkConst(vw[i], m[i]);
      sm[g_varExprs[j]] = mkConst(vw[j], m[j]);
      uint64_t z = evalExpr(substExpr(e, sm, newStamp()), m, newStamp());
      if (z != x) { printf("SUBST MISMATCH\n"); return 1; }
    }
  }
  printf("ok %ld\n", checked);
}
