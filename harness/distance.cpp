// The edit-distance objects against the reference, the metric axioms, the memo.
#include "vp.h"
#include "ref.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include <algorithm>
#include <string>
#include <vector>
namespace lld = liblevenshtein::distance;

static std::string sym(const char *name, size_t lo, size_t hi) {
  std::string s;
  size_t n = vp_choose(name, lo, hi);
  for (size_t i = 0; i < n; i++) s.push_back((char)vp_u8(name));
  return s;
}
// letters from a small alphabet, chosen symbolically
static std::string letters(const char *name, size_t lo, size_t hi, unsigned alpha) {
  std::string s;
  size_t n = vp_choose(name, lo, hi);
  for (size_t i = 0; i < n; i++) s.push_back((char)('a' + vp_choose(name, 0, alpha - 1)));
  return s;
}
static std::string pattern(size_t len, unsigned alpha, uint32_t x = 12345) {
  std::string s;
  for (size_t i = 0; i < len; i++) { x = x * 1103515245u + 12345u; s.push_back((char)('a' + (x >> 16) % alpha)); }
  return s;
}
static char classified(unsigned alpha) {
  char c = (char)vp_u8("c");
  for (unsigned k = 0; k < alpha; k++) if (vp_concrete(c == (char)('a' + k))) return (char)('a' + k);
  return c;
}
static std::string edited(const std::string &base, unsigned edits) {
  std::string s = base;
  unsigned alpha = vp_param("alpha", 2);
  for (unsigned e = 0; e < edits; e++) {
    unsigned op = (unsigned)vp_choose("op", 0, 3);
    size_t p = vp_choose("at", 0, vp_param("allpos", 0) ? vp_param("allpos", 0) : s.size());
    if (vp_param("allpos", 0)) p = s.size() * p / vp_param("allpos", 0);
    size_t need = op == 0 ? 0 : op == 3 ? 2 : 1;
    if (p + need > s.size()) { vp_assume(0); return s; }
    switch (op) {
    case 0: s.insert(s.begin() + p, classified(alpha)); break;
    case 1: s.erase(s.begin() + p); break;
    case 2: s[p] = classified(alpha); break;
    case 3: std::swap(s[p], s[p + 1]); break;
    }
  }
  return s;
}
static void note(const char *l, const std::string &s) { vp_note(l, s.data(), s.size()); }

template <class D> struct T {
  // value
  static void value(int alg) {
    std::string v = sym("v", vp_param("vmin", 0), vp_param("vmax", 3)), w = sym("w", vp_param("wmin", 0), vp_param("wmax", 3));
    note("v", v); note("w", w);
    D d;
    size_t got = vp_param("between", 0) ? d.between(v, w) : d(v, w);
    uint64_t ref = ref_distance(alg, v, w);
    vp_note("computed", nullptr, got);
    vp_note("reference", nullptr, ref);
    vp_assert(got == ref, "the computed distance is not the edit distance");
    vp_cover(got == 0 ? "zero" : "positive");
  }
  // value, longer strings: a pattern against its edited copy
  static void edits(int alg) {
    std::string v = vp_param("distinct", 0) ? std::string("abcdefghijklmnop").substr(0, vp_param("len", 10)) : pattern(vp_param("len", 10), vp_param("alpha", 2));
    std::string w = edited(v, (unsigned)vp_choose("edits", vp_param("emin", 0), vp_param("edits", 1)));
    // more letters at the end or the beginning
    std::string more = std::string("uvwxyzUVWXYZ").substr(0, vp_choose("more", 0, vp_param("more", 0)));
    if (!more.empty()) { if (vp_choose("end", 0, 1)) w += more; else w = more + w; }
    note("v", v); note("w", w);
    D d;
    size_t got = vp_choose("swap", 0, 1) ? d(w, v) : d(v, w);
    uint64_t ref = ref_distance(alg, v, w);
    vp_note("computed", nullptr, got);
    vp_note("reference", nullptr, ref);
    vp_assert(got == ref, "the computed distance is not the edit distance");
    vp_cover(got == 0 ? "zero" : "positive");
  }
  // value, all strings over a small alphabet
  static void small(int alg) {
    unsigned alpha = vp_param("alpha", 2);
    std::string v = letters("v", vp_param("vmin", 0), vp_param("vmax", 5), alpha), w = letters("w", vp_param("wmin", 0), vp_param("wmax", 5), alpha);
    note("v", v); note("w", w);
    D d;
    size_t got = d(v, w);
    uint64_t ref = ref_distance(alg, v, w);
    vp_note("computed", nullptr, got);
    vp_note("reference", nullptr, ref);
    vp_assert(got == ref, "the computed distance is not the edit distance");
    vp_cover(got == 0 ? "zero" : "positive");
  }
  static void metric(int alg) {
    size_t m = vp_param("vmax", 2);
    unsigned al = vp_param("alpha", 0);
    std::string a = al ? letters("a", 0, m, al) : sym("a", 0, m), b = al ? letters("b", 0, m, al) : sym("b", 0, m);
    note("a", a); note("b", b);
    size_t ab, ba, aa;
    { D d; ab = d(a, b); }
    { D d; ba = d(b, a); }
    { D d; aa = d(a, a); }
    vp_note("d(a,b)", nullptr, ab);
    vp_note("d(b,a)", nullptr, ba);
    vp_assert(ab == ba, "the distance is not symmetric");
    vp_assert(aa == 0, "the distance of a string to itself is not 0");
    vp_assert((ab == 0) == (bool)ref_same(a, b), "distance 0 does not mean equal strings");
    size_t lo = a.size() < b.size() ? b.size() - a.size() : a.size() - b.size(), hi = std::max(a.size(), b.size());
    vp_assert(ab <= hi, "the distance exceeds the length of the longer string");
    if (alg != REF_MERGE_AND_SPLIT) vp_assert(ab >= lo, "the distance is smaller than the difference in length");
    vp_cover("pair");
    if (!vp_param("triangle", 1)) return;
    std::string c = al ? letters("c", 0, vp_param("cmax", m), al) : sym("c", 0, vp_param("cmax", m));
    note("c", c);
    size_t bc, ac;
    { D d; bc = d(b, c); }
    { D d; ac = d(a, c); }
    vp_note("d(b,c)", nullptr, bc);
    vp_note("d(a,c)", nullptr, ac);
    // the restricted transposition distance itself breaks the inequality (README
    // and distance.h notwithstanding): told apart from a wrongly computed distance
    if (alg == REF_TRANSPOSITION) {
      int inherent = ref_distance(alg, a, c) > ref_distance(alg, a, b) + ref_distance(alg, b, c);
      vp_assert(inherent | (ac <= ab + bc), "the triangle inequality fails");
      if (inherent) vp_cover("inherent");
    } else
      vp_assert(ac <= ab + bc, "the triangle inequality fails");
    vp_cover("triple");
  }
  // the triples xy, yx, yzx
  static void swapped(int alg) {
    char x = (char)vp_u8("x"), y = (char)vp_u8("y"), z = (char)vp_u8("z");
    std::string a = {x, y}, b = {y, x}, c = {y, z, x};
    note("a", a); note("b", b); note("c", c);
    size_t ab, bc, ac;
    { D d; ab = d(a, b); }
    { D d; bc = d(b, c); }
    { D d; ac = d(a, c); }
    vp_note("d(a,b)", nullptr, ab);
    vp_note("d(b,c)", nullptr, bc);
    vp_note("d(a,c)", nullptr, ac);
    vp_assert(ab == ref_distance(alg, a, b), "d(xy, yx) is not the edit distance");
    vp_assert(bc == ref_distance(alg, b, c), "d(yx, yzx) is not the edit distance");
    vp_assert(ac == ref_distance(alg, a, c), "d(xy, yzx) is not the edit distance");
    vp_assert(ac <= ab + bc, "the triangle inequality fails for xy, yx, yzx");
    vp_cover("triple");
  }
  // earlier calls on the same object do not matter
  static void history(int alg) {
    size_t m = vp_param("vmax", 2), k = vp_param("calls", 2);
    D d;
    std::vector<std::string> vs, ws;
    for (size_t i = 0; i <= k; i++) {
      std::string v = sym("v", 0, m), w = sym("w", 0, m);
      note("v", v); note("w", w);
      size_t got = d(v, w);
      uint64_t ref = ref_distance(alg, v, w);
      vp_note("computed", nullptr, got);
      vp_note("reference", nullptr, ref);
      vp_assert(got == ref, "the distance depends on what was asked before");
      vs.push_back(v); ws.push_back(w);
    }
    size_t again = d(vs[0], ws[0]);
    vp_assert(again == ref_distance(alg, vs[0], ws[0]), "asking again gives another distance");
    size_t turned = d(ws[0], vs[0]);
    vp_assert(turned == ref_distance(alg, vs[0], ws[0]), "asking again with the strings exchanged gives another distance");
    vp_cover("asked");
  }
  // a long history over a small alphabet, then a symbolic pair
  static void warm(int alg) {
    D d;
    unsigned alpha = vp_param("alpha", 2);
    std::string p = pattern(vp_param("len", 6), alpha);
    for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < p.size(); j++) d(p.substr(i), p.substr(j, 4));
    size_t m = vp_param("vmax", 4);
    std::string v = letters("v", 0, m, alpha), w = letters("w", 0, m, alpha);
    note("v", v); note("w", w);
    size_t got = d(v, w);
    uint64_t ref = ref_distance(alg, v, w);
    vp_note("computed", nullptr, got);
    vp_note("reference", nullptr, ref);
    vp_assert(got == ref, "the distance depends on what was asked before");
    D e; // objects do not share anything observable
    vp_assert(e(w, v) == ref, "the distance depends on what another object was asked before");
    vp_cover("asked");
  }
  // long strings that differ in one place, one after the other
  static void longkeys(int alg) {
    D d;
    size_t len = vp_param("len", 20);
    std::string v = pattern(len, 2), w = v.substr(0, len - 1);
    size_t p = vp_choose("at", 0, len - 1);
    size_t first = d(v, w);
    vp_assert(first == ref_distance(alg, v, w), "the distance depends on what was asked before");
    std::string u = v;
    u[p] = classified(2);
    note("v", v); note("w", w); note("u", u);
    vp_assert(d(u, w) == ref_distance(alg, u, w), "the distance depends on what was asked before");
    vp_assert(d(v, u) == ref_distance(alg, v, u), "the distance depends on what was asked before");
    vp_assert(d(w, v) == first, "asking again gives another distance");
    vp_cover("asked");
  }
  // strings of very different lengths, both ways round and again on one object
  static void lengths(int alg) {
    static const size_t lens[] = {300, 257, 256, 255, 128, 127, 65, 64, 33, 32, 31, 17, 16, 15};
    std::string w = pattern(lens[vp_choose("len", 0, 13)], 2);
    std::string v = sym("v", 0, vp_param("vmax", 1));
    if (!v.empty()) for (char c : {'a', 'b'}) if (vp_concrete(v[0] == c)) v[0] = c;
    note("v", v); note("w", w);
    D d;
    uint64_t ref = ref_distance(alg, v, w);
    size_t got = d(v, w);
    vp_note("computed", nullptr, got);
    vp_note("reference", nullptr, ref);
    vp_assert(got == ref, "the computed distance is not the edit distance");
    size_t turned = d(w, v);
    vp_note("exchanged", nullptr, turned);
    vp_assert(turned == got, "the distance is not symmetric");
    size_t again = d(v, w);
    vp_assert(again == got, "asking again gives another distance");
    vp_assert(d(w, w) == 0, "the distance of a string to itself is not 0");
    vp_cover("asked");
  }
  // a long common part between different beginnings and ends
  static void frame(int alg) {
    std::string mid = std::string("abcdefghijklm").substr(0, vp_param("mid", 6));
    std::string p1 = sym("p", 0, vp_param("p1", 2)), p2 = sym("P", 0, vp_param("p2", 1));
    std::string s1(vp_choose("s", 0, vp_param("s1", 0)), 'x'), s2(vp_choose("S", 0, vp_param("s2", 2)) * vp_param("step", 1), 'y');
    std::string v = vp_param("mirror", 0) ? s1 + mid + p1 : p1 + mid + s1, w = vp_param("mirror", 0) ? s2 + mid + p2 : p2 + mid + s2;
    note("v", v); note("w", w);
    D d;
    bool turn = vp_choose("swap", 0, 1);
    size_t got = turn ? d(w, v) : d(v, w);
    uint64_t ref = ref_distance(alg, v, w);
    vp_note("computed", nullptr, got);
    vp_note("reference", nullptr, ref);
    vp_assert(got == ref, "the computed distance is not the edit distance");
    vp_cover("framed");
  }
  // objects of the same and of the other kinds, asked for the same pair
  static void kinds(int alg) {
    std::string v = sym("v", 0, vp_param("vmax", 2)), w = sym("w", 0, vp_param("wmax", 2));
    note("v", v); note("w", w);
    lld::StandardDistance s;
    lld::TranspositionDistance t;
    lld::MergeAndSplitDistance m;
    lld::Distance *o[] = {&s, &t, &m};
    D d;
    int when = (int)vp_choose("when", 0, 1); // asked first or last
    uint64_t ref = ref_distance(alg, v, w);
    if (when == 0) vp_assert(d(v, w) == ref, "the computed distance is not the edit distance");
    for (int k = 0; k < 3; k++)
      vp_assert((*o[k])(v, w) == ref_distance(k, v, w), "the distance depends on what another object was asked before");
    size_t got = d(v, w);
    vp_note("computed", nullptr, got);
    vp_note("reference", nullptr, ref);
    vp_assert(got == ref, "the distance depends on what another object was asked before");
    vp_cover("asked");
  }
  struct Job { D *d; std::string v[2], w[2]; size_t got[2]; int n; };
  static void job(void *p) {
    Job *j = (Job *)p;
    for (int i = 0; i < j->n; i++) j->got[i] = (*j->d)(j->v[i], j->w[i]);
  }
  static void threads(int alg) {
    D d, e; // one object, or one each
    bool apart = vp_param("apart", 0);
    size_t m = vp_param("vmax", 1);
    int calls = (int)vp_param("calls", 1), nt = (int)vp_param("threads", 2);
    std::vector<Job> jobs(nt);
    for (Job &j : jobs) {
      j.d = apart && &j != &jobs[0] ? &e : &d;
      j.n = calls;
      for (int i = 0; i < calls; i++) {
        if (vp_param("alpha", 0)) { j.v[i] = letters("v", vp_param("vmin", 0), m, vp_param("alpha", 2)); j.w[i] = letters("w", vp_param("vmin", 0), m, vp_param("alpha", 2)); }
        else { j.v[i] = sym("v", vp_param("vmin", 0), m); j.w[i] = sym("w", vp_param("vmin", 0), m); }
        note("v", j.v[i]); note("w", j.w[i]);
      }
    }
    if (vp_param("warm", 0)) d(jobs[0].v[0], jobs[0].w[0]);
    for (Job &j : jobs) vp_spawn(job, &j);
    vp_join_all();
    for (Job &j : jobs)
      for (int i = 0; i < calls; i++) {
        uint64_t ref = ref_distance(alg, j.v[i], j.w[i]);
        vp_assert(j.got[i] == ref, "a distance computed beside other threads is wrong");
        vp_assert(d(j.v[i], j.w[i]) == ref, "a distance asked after concurrent use is wrong");
      }
    vp_cover("joined");
  }
  // memory: nothing is left behind by a distance object
  static void memory(int alg) {
    std::string v = sym("v", 0, vp_param("vmax", 2)), w = sym("w", 0, vp_param("wmax", 2));
    note("v", v); note("w", w);
    uint64_t live[3];
    for (int k = 0; k < 3; k++) {
      { D d; d(v, w); d(w, v); d(v, v); }
      live[k] = vp_live();
    }
    vp_assert(live[2] <= live[1], "memory is left behind by a distance object");
    vp_cover("done");
  }
  static void go(int alg) {
    switch (vp_param("scn", 0)) {
    case 0: value(alg); break;
    case 1: edits(alg); break;
    case 2: small(alg); break;
    case 3: metric(alg); break;
    case 4: history(alg); break;
    case 5: warm(alg); break;
    case 6: threads(alg); break;
    case 7: memory(alg); break;
    case 8: longkeys(alg); break;
    case 9: swapped(alg); break;
    case 10: lengths(alg); break;
    case 11: frame(alg); break;
    case 12: kinds(alg); break;
    }
  }
};
void vp_main() {
  switch (vp_param("alg", 0)) {
  case 0: T<lld::StandardDistance>::go(0); break;
  case 1: T<lld::TranspositionDistance>::go(1); break;
  case 2: T<lld::MergeAndSplitDistance>::go(2); break;
  }
}
