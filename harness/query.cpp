// Dictionary queries against the reference distances.
#include "vp.h"
#include "ref.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/transducer/transducer.h"
#include <algorithm>
#include <string>
#include <vector>
using namespace liblevenshtein;

enum { P_EXACT = 1, P_DIST = 2, P_ONCE = 4, P_TYPES = 8, P_MONO = 16 };
static uint64_t props, band = 1000000;
struct Hit { std::string term; size_t dist; };

template <Algorithm A> static std::vector<Hit> ask_pairs(Dawg *d, const std::string &q, size_t n, size_t limit) {
  std::vector<Hit> out;
  Transducer<A, Candidate> t(d->root());
  auto range = t(q, n);
  auto it = range.begin();
  auto end = range.end();
  while (!(it == end)) {
    const Candidate &c = *it;
    out.push_back({c.first, c.second});
    if (out.size() > limit) {
      if (props & P_ONCE) vp_assert(0, "the query yields more candidates than the dictionary has terms");
      return out;
    }
    ++it;
  }
  if (props & P_ONCE) {
    ++it;
    vp_assert(it == end, "an exhausted query came back to life");
    ++it;
    vp_assert(it == end, "an exhausted query came back to life");
  }
  return out;
}
template <Algorithm A> static std::vector<Hit> ask_strings(Dawg *d, const std::string &q, size_t n, size_t limit) {
  std::vector<Hit> out;
  Transducer<A, std::string> t(d->root());
  for (const std::string &c : t(q, n)) {
    out.push_back({c, 0});
    if (out.size() > limit) {
      if (props & (P_ONCE | P_TYPES)) vp_assert(0, "the query yields more candidates than the dictionary has terms");
      break;
    }
  }
  return out;
}
// which dictionary term a candidate is; -1 when it is none
static int which(const std::vector<std::string> &dict, const std::string &c) {
  for (size_t i = 0; i < dict.size(); i++) if (c == dict[i]) return (int)i;
  return -1;
}

static SortedDawg *build(const std::vector<std::string> &dict) {
  std::vector<std::string> terms = dict;
  SortedDawg *d = sorted_dawg(terms.begin(), terms.end());
  vp_assert(d != nullptr, "a sorted list of terms was rejected");
  return d;
}
template <Algorithm A> static void judge(int alg, SortedDawg *d, const std::vector<std::string> &dict, const std::string &q, size_t n, bool strings) {
  vp_note("query", q.data(), q.size());
  vp_note("max_distance", nullptr, n);
  std::vector<Hit> hits = strings ? ask_strings<A>(d, q, n, dict.size()) : ask_pairs<A>(d, q, n, dict.size());
  if (hits.size() > dict.size() && !(props & P_EXACT)) { delete d; return; }
  if (hits.empty()) vp_cover("no-candidate"); else vp_cover("candidates");
  std::vector<int> count(dict.size(), 0);
  std::vector<uint64_t> reported(dict.size(), 0);
  for (const Hit &h : hits) {
    int k = which(dict, h.term);
    vp_note("candidate", h.term.data(), h.term.size());
    if (props & P_EXACT) vp_assert(k >= 0, "a candidate is not a dictionary term");
    if (k < 0) continue;
    if (props & P_ONCE) vp_assert(count[k] == 0, "a candidate is reported twice");
    count[k]++;
    reported[k] = h.dist;
  }
  if (props & (P_EXACT | P_DIST))
    for (size_t i = 0; i < dict.size(); i++) {
      if ((props & P_EXACT) == 0 && !count[i]) continue;
      uint64_t ref = ref_distance(alg, q, dict[i], band);
      vp_note("term", dict[i].data(), dict[i].size());
      vp_note("reference distance", nullptr, ref);
      if (props & P_EXACT) {
        if (count[i]) vp_assert(ref <= n, "a candidate lies farther away than the maximum distance");
        else vp_assert(ref > n, "a dictionary term within the maximum distance is missing");
      }
      if ((props & P_DIST) && count[i] && !strings) vp_assert(reported[i] == ref, "the reported distance is not the distance between query and candidate");
    }
  if (props & P_TYPES) {
    std::vector<Hit> other = ask_strings<A>(d, q, n, dict.size());
    vp_assert(other.size() == hits.size(), "the two result types yield different numbers of candidates");
    for (size_t i = 0; i < hits.size() && i < other.size(); i++) {
      bool in = false;
      for (size_t j = 0; j < other.size() && !in; j++) in = other[j].term == hits[i].term;
      vp_assert(in, "a term found with distances is missing from the plain result");
      in = false;
      for (size_t j = 0; j < hits.size() && !in; j++) in = other[i].term == hits[j].term;
      vp_assert(in, "a term of the plain result is missing from the result with distances");
    }
  }
  if (props & P_MONO) {
    // a larger maximum distance never loses a candidate
    vp_assume(n != SIZE_MAX);
    std::vector<Hit> more = ask_pairs<A>(d, q, n + 1, dict.size());
    vp_assert(more.size() >= hits.size(), "a larger maximum distance yields fewer candidates");
    for (const Hit &h : hits) {
      bool in = false;
      for (size_t j = 0; j < more.size() && !in; j++) in = more[j].term == h.term && (strings || more[j].dist == h.dist);
      vp_assert(in, "a larger maximum distance loses a candidate or changes its distance");
    }
  }
  delete d;
}

// ---- dictionaries ---------------------------------------------------------
static void all_words(std::vector<std::string> &out, const std::string &alpha, size_t maxlen) {
  std::vector<std::string> layer{""};
  for (size_t l = 0; l <= maxlen; l++) {
    std::vector<std::string> next;
    for (auto &w : layer) { out.push_back(w); if (l < maxlen) for (char c : alpha) next.push_back(w + c); }
    layer = next;
  }
  std::sort(out.begin(), out.end());
}
static std::string sym(const char *name, size_t lo, size_t hi) {
  std::string s;
  size_t n = vp_choose(name, lo, hi);
  for (size_t i = 0; i < n; i++) s.push_back((char)vp_u8(name));
  return s;
}
static std::vector<std::string> fixed_dict(unsigned k) {
  std::vector<std::string> v;
  switch (k) {
  case 0: all_words(v, "ab", vp_param("dlen", 3)); break;
  case 1: all_words(v, "abc", vp_param("dlen", 2)); break;
  case 2: v = {"a", "abab", "ba", "bab"}; break;                                   // no empty term
  case 3: v = {"", "ab", "abcabc", "abcb", "bcabc", "cabc", "cb"}; break;          // shared suffixes
  case 4: v = {std::string("\0", 1), std::string("\0\0a", 3), "\x7f", "\x80", "\xff", "\xff\x80"}; break;
  case 5: v = {}; break;
  case 6: v = {""}; break;
  case 7: v = {"aaaaaa", "aaaab", "abababab", "abcdef", "badcfe", "fedcba"}; break;
  }
  std::sort(v.begin(), v.end(), [](const std::string &a, const std::string &b) { return a < b; });
  return v;
}
// an arbitrary byte, with the path split on which letter of the alphabet it is
static char classified(unsigned alpha) {
  char c = (char)vp_u8("c");
  for (unsigned k = 0; k < alpha; k++) if (vp_concrete(c == (char)('a' + k))) return (char)('a' + k);
  return c;
}
// a position in 0..size: every one of them when the string is short, else those
// around the ends, the middle and the usual size thresholds
static size_t position(size_t size) {
  if (size <= vp_param("allpos", 24)) return vp_choose("at", 0, size);
  std::vector<size_t> p;
  for (size_t x : {(size_t)0, (size_t)1, (size_t)2, (size_t)15, (size_t)16, (size_t)31, (size_t)32, (size_t)63, (size_t)64, size / 2, (size_t)127, (size_t)128, (size_t)255, (size_t)256, size - 2, size - 1, size})
    if (x <= size && std::find(p.begin(), p.end(), x) == p.end()) p.push_back(x);
  return p[vp_choose("at", 0, p.size() - 1)];
}
// an edited copy of base: `edits` edits, each at a symbolic position
static std::string edited(const std::string &base, unsigned edits, int alg) {
  std::string s = base;
  unsigned alpha = vp_param("alpha", 3);
  for (unsigned e = 0; e < edits; e++) {
    unsigned op = (unsigned)vp_choose("op", 0, alg == REF_STANDARD ? 2 : alg == REF_TRANSPOSITION ? 3 : 4);
    size_t p = position(s.size());
    size_t need = op == 0 ? 0 : op == 3 ? 2 : 1;
    if (p + need > s.size()) { vp_assume(0); return s; }
    switch (op) {
    case 0: s.insert(s.begin() + p, classified(alpha)); break;
    case 1: s.erase(s.begin() + p); break;
    case 2: s[p] = classified(alpha); break;
    case 3:
      if (alg == REF_TRANSPOSITION) std::swap(s[p], s[p + 1]);
      else { s.erase(s.begin() + p); s[p] = classified(alpha); }
      break;
    case 4: s[p] = classified(alpha); s.insert(s.begin() + p, classified(alpha)); break;
    }
  }
  return s;
}
static std::string pattern(size_t len) {
  std::string s;
  uint32_t x = 12345;
  for (size_t i = 0; i < len; i++) { x = x * 1103515245u + 12345u; s.push_back((char)('a' + (x >> 16) % vp_param("alpha", 3))); }
  return s;
}

static uint64_t any_n() {
  uint64_t n = vp_u64("n");
  vp_assume(n >= vp_param("nlo", 0));
  vp_assume(n <= vp_param("nhi", UINT64_MAX));
  return n;
}
template <Algorithm A> static void scenario(int alg) {
  bool strings = vp_param("strings", 0);
  std::vector<std::string> dict;
  std::string q;
  uint64_t n;
  SortedDawg *d;
  switch (vp_param("scn", 0)) {
  default: // fixed dictionary, symbolic query and maximum distance
    dict = fixed_dict(vp_param("dict", 0));
    d = build(dict);
    q = sym("q", vp_param("qmin", 0), vp_param("qmax", 3));
    n = any_n();
    break;
  case 1: // symbolic term and query
    dict = {sym("t", vp_param("tmin", 0), vp_param("tmax", 3))};
    d = build(dict);
    q = sym("q", vp_param("qmin", 0), vp_param("qmax", 3));
    n = any_n();
    break;
  case 2: // two symbolic terms
    dict = {sym("t", 0, vp_param("tmax", 2)), sym("u", 0, vp_param("tmax", 2))};
    vp_assume(dict[0] < dict[1]);
    d = build(dict);
    q = sym("q", vp_param("qmin", 0), vp_param("qmax", 2));
    n = any_n();
    break;
  case 3: { // long term, query = term after a few edits at symbolic places
    size_t len = vp_param("len", 20);
    dict = {pattern(len / 2), pattern(len)};
    d = build(dict);
    q = edited(dict[1], (unsigned)vp_choose("edits", vp_param("emin", 0), vp_param("edits", 1)), alg);
    n = vp_choose("n", vp_param("nmin", 0), vp_param("nmax", 3));
    band = n + 2;
    break;
  }
  case 4: { // dictionary = any subset of a small universe
    std::vector<std::string> uni;
    all_words(uni, "ab", 2);
    for (auto &w : uni) if (vp_choose("in", 0, 1)) dict.push_back(w);
    d = build(dict);
    q = sym("q", vp_param("qmin", 0), vp_param("qmax", 2));
    n = any_n();
    break;
  }
  case 5: { // query with several symbolic characters in a long fixed frame
    dict = fixed_dict(7);
    d = build(dict);
    q = dict[vp_choose("base", 0, dict.size() - 1)];
    unsigned k = vp_param("holes", 2);
    for (unsigned i = 0; i < k; i++) q[vp_choose("hole", 0, q.size() - 1)] = (char)vp_u8("q");
    n = any_n();
    break;
  }
  case 7: { // many terms; query = one of them with a few edits
    size_t count = vp_param("count", 200), len = vp_param("len", 7);
    std::vector<std::string> all;
    uint32_t x = 99;
    for (size_t i = 0; i < count; i++) {
      std::string w;
      size_t l = len - 2 + (x >> 20) % 5;
      for (size_t j = 0; j < l; j++) { x = x * 1103515245u + 12345u; w.push_back((char)('a' + (x >> 16) % vp_param("alpha", 3))); }
      x = x * 1103515245u + 12345u;
      all.push_back(w);
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    dict = all;
    d = build(dict);
    q = dict[vp_choose("base", 0, 3) * (dict.size() - 1) / 3];
    q = edited(q, (unsigned)vp_choose("edits", vp_param("emin", 0), vp_param("edits", 1)), alg);
    n = vp_choose("n", vp_param("nmin", 0), vp_param("nmax", 2));
    break;
  }
  case 8: { // query and terms of very different lengths, any maximum distance
    static const size_t lens[] = {258, 130, 66, 34, 511};
    size_t len = lens[vp_choose("len", 0, vp_param("lens", 4) - 1)];
    std::string longer = pattern(len);
    if (vp_param("far", 0) == 2) { // the terms' letters occur late in the query, or early
      dict = {"ab", "abcab", "ba"};
      q = std::string(len, 'x');
      static const size_t before[] = {0, 1, 2, 3, 4, 5};
      size_t k = before[vp_choose("gap", 0, 5)];
      k = k == 0 ? 0 : k == 1 ? len / 2 : k == 2 ? len - 5 : k == 3 ? len - 2 : k == 4 ? 15 : 31;
      std::string part = vp_choose("part", 0, 1) ? "abcab" : "ab";
      for (size_t i = 0; i < part.size() && k + i < len; i++) q[k + i] = part[i];
    } else if (vp_param("far", 0)) { // short terms, long query
      dict = {"", "ab", "abcab"};
      q = longer;
      q[1] = (char)vp_u8("q");
    } else { // long terms, short query
      dict = {longer.substr(0, len / 2), longer};
      q = sym("q", 0, vp_param("qmax", 2));
    }
    d = build(dict);
    n = any_n();
    vp_assume(n >= len - vp_param("below", 7));
    break;
  }
  case 9: { // a long common part between different beginnings and ends
    std::string mid = std::string("abcdefghijklm").substr(0, vp_param("mid", 6));
    for (const char *b : {"", "x", "xy"}) for (const char *e : {"", "z", "zyzy"}) dict.push_back(b + mid + e);
    std::sort(dict.begin(), dict.end());
    d = build(dict);
    q = sym("p", 0, vp_param("p1", 2)) + mid;
    q += sym("s", 0, vp_param("s1", 1));
    n = any_n();
    break;
  }
  case 6: { // the dictionary holds the edited term, the query is the original
    size_t len = vp_param("len", 12);
    q = pattern(len);
    dict = {edited(q, (unsigned)vp_choose("edits", vp_param("emin", 0), vp_param("edits", 1)), alg)};
    d = build(dict);
    n = vp_choose("n", vp_param("nmin", 0), vp_param("nmax", 3));
    band = n + 2;
    break;
  }
  }
  judge<A>(alg, d, dict, q, n, strings);
}
void vp_main() {
  props = vp_param("props", P_EXACT);
  switch (vp_param("alg", 0)) {
  case 0: scenario<Algorithm::STANDARD>(0); break;
  case 1: scenario<Algorithm::TRANSPOSITION>(1); break;
  case 2: scenario<Algorithm::MERGE_AND_SPLIT>(2); break;
  }
}
