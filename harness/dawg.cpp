// Dictionary construction: membership, size, iteration, order, minimality,
// equality, memory.
#include "vp.h"
#include "ref.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include <algorithm>
#include <list>
#include <set>
#include <string>
#include <vector>
using namespace liblevenshtein;

static std::string sym(const char *name, size_t lo, size_t hi) {
  std::string s;
  size_t n = vp_choose(name, lo, hi);
  for (size_t i = 0; i < n; i++) s.push_back((char)vp_u8(name));
  return s;
}
static void note(const char *l, const std::string &s) { vp_note(l, s.data(), s.size()); }
static void all_words(std::vector<std::string> &out, const std::string &alpha, size_t maxlen) {
  std::vector<std::string> layer{""};
  for (size_t l = 0; l <= maxlen; l++) {
    std::vector<std::string> next;
    for (auto &w : layer) { out.push_back(w); if (l < maxlen) for (char c : alpha) next.push_back(w + c); }
    layer = next;
  }
  std::sort(out.begin(), out.end());
}
static std::string pattern(size_t len, unsigned alpha, uint32_t x) {
  std::string s;
  for (size_t i = 0; i < len; i++) { x = x * 1103515245u + 12345u; s.push_back((char)('a' + (x >> 16) % alpha)); }
  return s;
}
// the words of this scenario, sorted, without repetition
static std::vector<std::string> words(const char *tag) {
  std::vector<std::string> v;
  switch (vp_param("dict", 0)) {
  case 0: { // any subset of all words over {a,b} up to dlen
    std::vector<std::string> u;
    all_words(u, "ab", vp_param("dlen", 2));
    for (auto &w : u) if (vp_choose(tag, 0, 1)) v.push_back(w);
    break;
  }
  case 1: { // k arbitrary strings
    size_t k = vp_choose("count", 0, vp_param("terms", 2));
    for (size_t i = 0; i < k; i++) v.push_back(sym(tag, 0, vp_param("tmax", 2)));
    for (size_t i = 1; i < v.size(); i++) vp_assume(v[i - 1] < v[i]);
    break;
  }
  case 2: { // any subset of words that share prefixes and suffixes
    const char *u[] = {"ation", "cation", "nation", "notion", "ration", "rations", "station", "stations", "stone"};
    for (auto w : u) if (vp_choose(tag, 0, 1)) v.push_back(w);
    break;
  }
  case 3: { // bytes at the edges of the signed and unsigned ranges
    const std::string u[] = {std::string("\0", 1), std::string("\0\0", 2), std::string("\0\x80", 2), "\x01", "\x7f", "\x7f\xff", "\x80", "\x80\x7f", "\xff", std::string("\xff\0", 2), "\xff\xff"};
    for (auto &w : u) if (vp_choose(tag, 0, 1)) v.push_back(w);
    break;
  }
  case 4: { // long words
    size_t len = vp_param("len", 40);
    std::set<std::string> s;
    for (unsigned k = 0; k < vp_param("fam", 4); k++) if (vp_choose(tag, 0, 1)) { s.insert(pattern(len, 2, k)); s.insert(pattern(len, 2, k).substr(0, len / 2) + pattern(len / 2, 2, 99)); }
    v.assign(s.begin(), s.end());
    break;
  }
  case 5: { // a node with many outgoing edges
    size_t k = vp_choose(tag, 0, 2);
    std::vector<std::string> u;
    for (unsigned c = 0; c < (k == 0 ? 20u : k == 1 ? 130u : 256u); c++) { u.push_back(std::string(1, (char)c)); if (c % 16 == 0) u.push_back(std::string(1, (char)c) + "x"); }
    v = u;
    break;
  }
  case 7: { // many words, some of them left out
    size_t count = vp_param("count", 300), len = vp_param("len", 7), k = vp_choose(tag, 0, 7);
    uint32_t x = 99;
    std::set<std::string> all;
    for (size_t i = 0; i < count; i++) {
      std::string w;
      size_t l = len - 2 + (x >> 20) % 5;
      for (size_t j = 0; j < l; j++) { x = x * 1103515245u + 12345u; w.push_back((char)('a' + (x >> 16) % vp_param("alpha", 3))); }
      x = x * 1103515245u + 12345u;
      if (i % 8 != k) all.insert(w);
    }
    v.assign(all.begin(), all.end());
    break;
  }
  case 6: { // several words over a wider alphabet, each present or not
    std::vector<std::string> u;
    all_words(u, "abc", vp_param("dlen", 1));
    for (auto &w : u) if (vp_choose(tag, 0, 1)) v.push_back(w + "ab");
    std::sort(v.begin(), v.end());
    break;
  }
  }
  return v;
}
static SortedDawg *build(std::vector<std::string> &v) {
  switch (vp_param("from", 0)) {
  case 1: { std::list<std::string> l(v.begin(), v.end()); return sorted_dawg(l.begin(), l.end()); }
  case 2: { std::set<std::string> l(v.begin(), v.end()); return sorted_dawg(l.begin(), l.end()); }
  default: return sorted_dawg(v.begin(), v.end());
  }
}
// the probe strings are tried one per path
static std::string probe(const std::vector<std::string> &v) {
  switch (vp_param("probe", 0)) {
  default: return sym("p", 0, vp_param("pmax", 3));
  case 2: { // as 1, at a few places of a long word
    if (v.empty()) return sym("p", 0, 1);
    std::string s = v[vp_choose("word", 0, v.size() - 1)];
    size_t at[] = {0, 15, 16, 63, 64, 127, 128, 255, 256, s.size() - 1};
    size_t p = at[vp_choose("at", 0, 9)];
    if (p >= s.size()) p = s.size() - 1;
    switch (vp_choose("how", 0, 2)) {
    case 0: s.push_back((char)vp_u8("c")); break;
    case 1: s.resize(p); break;
    case 2: s[p] = (char)vp_u8("c"); break;
    }
    return s;
  }
  case 1: { // near a word: one character replaced, cut or appended
    if (v.empty()) return sym("p", 0, 1);
    std::string s = v[vp_choose("word", 0, v.size() - 1)];
    switch (vp_choose("how", 0, 3)) {
    case 0: break;
    case 1: s.push_back((char)vp_u8("c")); break;
    case 2: if (!s.empty()) s.resize(vp_choose("cut", 0, s.size() - 1)); break;
    case 3: if (!s.empty()) s[vp_choose("at", 0, s.size() - 1)] = (char)vp_u8("c"); break;
    }
    return s;
  }
  }
}

static void membership() {
  std::vector<std::string> v = words("w");
  SortedDawg *d = build(v);
  vp_assert(d != nullptr, "a sorted input is rejected");
  for (auto &w : v) note("term", w);
  std::string p = probe(v);
  note("probe", p);
  int want = 0;
  for (auto &w : v) want |= ref_same(w, p);
  bool got = d->contains(p);
  vp_note("contains", nullptr, got);
  vp_assert((int)got == want, got ? "the dictionary claims to contain a string that was not added" : "the dictionary does not contain a term that was added");
  vp_cover(got ? "in" : "out");
  for (auto &w : v) vp_assert(d->contains(w), "the dictionary does not contain a term that was added");
  delete d;
}
static void iteration() {
  std::vector<std::string> v = words("w");
  SortedDawg *d = build(v);
  vp_assert(d != nullptr, "a sorted input is rejected");
  for (auto &w : v) note("term", w);
  vp_note("size", nullptr, d->size());
  vp_assert(d->size() == v.size(), "the size is not the number of distinct terms");
  for (int round = 0; round < 2; round++) {
    std::vector<int> seen(v.size(), 0);
    size_t n = 0;
    for (const std::string &s : *d) {
      note("yielded", s);
      vp_assert(++n <= v.size(), "iteration yields more strings than there are terms");
      int k = -1;
      for (size_t i = 0; i < v.size() && k < 0; i++) if (s == v[i]) k = (int)i;
      vp_assert(k >= 0, "iteration yields a string that was not added");
      vp_assert(seen[k]++ == 0, "iteration yields a term twice");
    }
    vp_assert(n == v.size(), "iteration misses a term");
  }
  vp_cover(v.empty() ? "empty" : "terms");
  delete d;
}
// repetitions in the input
static void duplicates() {
  std::vector<std::string> v = words("w"), in;
  for (auto &w : v) { size_t k = vp_choose("times", 1, 2); for (size_t i = 0; i < k; i++) in.push_back(w); }
  for (auto &w : in) note("added", w);
  SortedDawg *d = sorted_dawg(in.begin(), in.end());
  vp_assert(d != nullptr, "a sorted input is rejected");
  vp_assert(d->size() == v.size(), "the size is not the number of distinct terms");
  size_t n = 0;
  std::vector<int> seen(v.size(), 0);
  for (const std::string &s : *d) {
    vp_assert(++n <= v.size(), "iteration yields more strings than there are terms");
    for (size_t i = 0; i < v.size(); i++) if (s == v[i]) vp_assert(seen[i]++ == 0, "iteration yields a term twice");
  }
  vp_assert(n == v.size(), "iteration misses a term");
  for (auto &w : v) vp_assert(d->contains(w), "the dictionary does not contain a term that was added");
  vp_cover("done");
  delete d;
}
static void order() {
  size_t k = vp_choose("count", 0, vp_param("terms", 3));
  std::vector<std::string> v;
  for (size_t i = 0; i < k; i++) v.push_back(sym("t", 0, vp_param("tmax", 2)));
  // bytewise (unsigned) lexicographic order, computed without the library
  int sorted = 1;
  for (size_t i = 1; i < k; i++) {
    const std::string &a = v[i - 1], &b = v[i];
    int le = a.size() <= b.size();
    for (size_t j = std::min(a.size(), b.size()); j-- > 0;) {
      unsigned char x = (unsigned char)a[j], y = (unsigned char)b[j];
      le = (int)vp_ite(x < y, 1, vp_ite(y < x, 0, (uint64_t)le));
    }
    sorted &= le;
  }
  for (auto &w : v) note("term", w);
  SortedDawg *d;
  if (vp_param("from", 0) == 1) { std::list<std::string> l(v.begin(), v.end()); d = sorted_dawg(l.begin(), l.end()); }
  else d = sorted_dawg(v.begin(), v.end());
  vp_note("accepted", nullptr, d != nullptr);
  vp_assert((int)(d != nullptr) == sorted, d ? "an input that is not sorted is accepted" : "a sorted input is rejected");
  vp_cover(d ? "accepted" : "rejected");
  if (d) for (auto &w : v) vp_assert(d->contains(w), "the dictionary does not contain a term that was added");
  delete d;
}
// a long sorted sequence, then one more term
static void late() {
  std::vector<std::string> v = words("w");
  std::string t;
  for (size_t i = vp_choose("len", 0, vp_param("tmax", 2)); i > 0; i--) t.push_back("\0abcd\x7f\xff"[vp_choose("t", 0, 6)]);
  note("last of the sequence", v.back());
  note("term", t);
  const std::string &b = v.back();
  int le = b.size() <= t.size();
  for (size_t j = std::min(t.size(), b.size()); j-- > 0;) {
    unsigned char x = (unsigned char)b[j], y = (unsigned char)t[j];
    le = (int)vp_ite(x < y, 1, vp_ite(y < x, 0, (uint64_t)le));
  }
  std::vector<std::string> in = v;
  in.push_back(t);
  SortedDawg *d = sorted_dawg(in.begin(), in.end());
  vp_assert((int)(d != nullptr) == le, d ? "an input that is not sorted is accepted" : "a sorted input is rejected");
  vp_cover(d ? "accepted" : "rejected");
  delete d;
}
// one by one through the incremental interface
static void increments() {
  size_t k = vp_param("terms", 3);
  SortedDawg *d = new SortedDawg();
  d->init();
  std::vector<std::string> ok;
  std::string last;
  for (size_t i = 0; i < k; i++) {
    std::string t = sym("t", 0, vp_param("tmax", 2));
    note("term", t);
    bool in = d->add(t);
    bool fits = !(t < last);
    if (vp_param("remove", 0)) vp_assert(!d->remove(t) && !d->remove(last), "removal claims to have succeeded");
    vp_assert(in == fits, fits ? "a term in order is refused" : "a term out of order is accepted");
    if (in) { if (ok.empty() || ok.back() != t) ok.push_back(t); last = t; }
    vp_assert(d->size() == ok.size(), "the size is not the number of distinct terms");
  }
  d->finish();
  d->clean_up();
  for (auto &w : ok) vp_assert(d->contains(w), "the dictionary does not contain a term that was added");
  std::string p = sym("p", 0, vp_param("tmax", 2));
  int want = 0;
  for (auto &w : ok) want |= ref_same(w, p);
  vp_assert((int)d->contains(p) == want, "membership is wrong");
  vp_cover("done");
  delete d;
}
static void reach(DawgNode *n, std::vector<DawgNode *> &out) {
  for (DawgNode *x : out) if (x == n) return;
  out.push_back(n);
  n->for_each_edge([&](char, DawgNode *t) { reach(t, out); });
}
static void minimal() {
  std::vector<std::string> v = words("w");
  SortedDawg *d = build(v);
  vp_assert(d != nullptr, "a sorted input is rejected");
  for (auto &w : v) note("term", w);
  std::vector<DawgNode *> nodes;
  reach(d->root(), nodes);
  // distinct right languages of the prefixes of the terms (Myhill-Nerode)
  std::vector<std::string> prefixes{""};
  for (auto &w : v)
    for (size_t l = 1; l <= w.size(); l++) {
      std::string p = w.substr(0, l);
      bool known = false;
      for (auto &q : prefixes) if (q == p) { known = true; break; }
      if (!known) prefixes.push_back(p);
    }
  std::vector<std::vector<std::string>> langs;
  for (auto &p : prefixes) {
    std::vector<std::string> l;
    for (auto &w : v) if (w.size() >= p.size() && w.compare(0, p.size(), p) == 0) l.push_back(w.substr(p.size()));
    bool known = false;
    for (auto &m : langs) if (m == l) { known = true; break; }
    if (!known) langs.push_back(l);
  }
  vp_note("nodes", nullptr, nodes.size());
  vp_note("right languages", nullptr, langs.size());
  vp_assert(nodes.size() == langs.size(), "the word graph is not minimal");
  vp_cover(nodes.size() > 2 ? "shared" : "tiny");
  delete d;
}
static void equality() {
  std::vector<std::string> a = words("w"), b;
  if (vp_param("near", 0)) { // the same terms, or all but one of them
    b = a;
    size_t k = vp_choose("drop", 0, a.size());
    if (k < a.size()) b.erase(b.begin() + k);
  } else b = words("x");
  SortedDawg *d = build(a), *e = build(b);
  vp_assert(d != nullptr && e != nullptr, "a sorted input is rejected");
  for (auto &w : a) note("left", w);
  for (auto &w : b) note("right", w);
  int want = a.size() == b.size();
  if (want) for (size_t i = 0; i < a.size(); i++) want &= ref_same(a[i], b[i]);
  bool eq = *d == *e, qe = *e == *d;
  vp_note("equal", nullptr, eq);
  vp_assert((int)eq == want, eq ? "dictionaries with different terms compare equal" : "dictionaries with the same terms compare different");
  vp_assert(eq == qe, "comparing dictionaries depends on the order of the operands");
  vp_assert((*d != *e) == !eq, "== and != disagree");
  vp_assert(*d == *d, "a dictionary differs from itself");
  if (eq) vp_assert(std::hash<Dawg>()(*d) == std::hash<Dawg>()(*e), "equal dictionaries have different hash codes");
  vp_cover(eq ? "equal" : "different");
  delete d;
  delete e;
}
static void round(std::vector<std::string> &v, int how, const std::string &p) {
  if (how == 2) { // incremental, abandoned before finish
    SortedDawg *d = new SortedDawg();
    d->init();
    for (auto &w : v) d->add(w);
    delete d;
    return;
  }
  SortedDawg *d = build(v);
  if (!d) { vp_cover("rejected"); return; }
  vp_cover("accepted");
  d->contains(p);
  { // an iterator that is dropped half-way
    auto it = d->begin();
    auto end = d->end();
    size_t n = 0;
    while (!(it == end) && n < 40) { std::string s = *it; ++it; n++; if (how == 1 && n == 1) break; }
  }
  delete d;
}
static void memory() {
  size_t k = vp_choose("count", 0, vp_param("terms", 3));
  std::vector<std::string> v;
  if (vp_param("any", 1)) for (size_t i = 0; i < k; i++) v.push_back(sym("t", 0, vp_param("tmax", 2))); // sorted or not
  else v = words("w");
  int how = (int)vp_choose("how", 0, 2);
  std::string p = sym("p", 0, vp_param("pmax", 1));
  for (auto &w : v) note("term", w);
  uint64_t live[3];
  for (int i = 0; i < 3; i++) { round(v, how, p); live[i] = vp_live(); }
  vp_note("live before", nullptr, live[1]);
  vp_note("live after", nullptr, live[2]);
  vp_assert(live[2] <= live[1], "memory is left behind by building a dictionary");
}
void vp_main() {
  switch (vp_param("scn", 0)) {
  case 0: membership(); break;
  case 1: iteration(); break;
  case 2: order(); break;
  case 3: minimal(); break;
  case 4: equality(); break;
  case 5: memory(); break;
  case 6: duplicates(); break;
  case 7: increments(); break;
  case 8: late(); break;
  }
}
