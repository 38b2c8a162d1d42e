// Life cycle of queries: independence of each other, memory, threads.
#include "vp.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/transducer/transducer.h"
#include <algorithm>
#include <string>
#include <utility>
#include <vector>
using namespace liblevenshtein;

static std::string sym(const char *name, size_t lo, size_t hi) {
  std::string s;
  size_t n = vp_choose(name, lo, hi);
  for (size_t i = 0; i < n; i++) s.push_back((char)vp_u8(name));
  return s;
}
typedef std::vector<std::pair<std::string, size_t>> Hits;
static void push(Hits &h, const std::string &s) { h.push_back({s, 0}); }
static void push(Hits &h, const Candidate &c) { h.push_back(c); }
static bool same(const Hits &a, const Hits &b) { // as sets
  if (a.size() != b.size()) return false;
  std::vector<bool> used(b.size(), false);
  for (auto &x : a) {
    bool in = false;
    for (size_t j = 0; j < b.size() && !in; j++)
      if (!used[j] && b[j].second == x.second && b[j].first == x.first) { used[j] = true; in = true; }
    if (!in) return false;
  }
  return true;
}
static const size_t LIMIT = 64;
static std::vector<std::string> words(unsigned k) {
  switch (k) {
  case 0: return {"", "a", "ab", "b", "ba"};
  case 1: return {"ab", "abb", "ba", "bab"};
  case 2: return {"aab", "aba", "baa"};
  case 4: { // 60 words
    std::vector<std::string> v;
    for (char a = 'a'; a < 'e'; a++) for (char b = 'a'; b < 'd'; b++) for (int c = 0; c < 5; c++) v.push_back(std::string() + a + b + std::string(c, 'a') + b);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
  }
  default: return {"a"};
  }
}

template <Algorithm A, class R> struct Life {
  typedef Transducer<A, R> T;
  static Hits solo(Dawg *d, const std::string &q, size_t n) {
    Hits h;
    T t(d->root());
    for (const R &c : t(q, n)) { push(h, c); if (h.size() > LIMIT) break; }
    return h;
  }
  // ---- queries do not influence each other
  static void interleave() {
    std::vector<std::string> w = words(vp_param("dict", 0));
    SortedDawg *d = sorted_dawg(w.begin(), w.end());
    size_t qmax = vp_param("qmax", 2), nmax = vp_param("nmax", 2);
    std::string q1 = sym("q", 0, qmax), q2 = sym("r", 0, qmax);
    size_t n1 = vp_choose("n", 0, nmax), n2 = vp_choose("m", 0, nmax);
    vp_note("first query", q1.data(), q1.size());
    vp_note("second query", q2.data(), q2.size());
    Hits s1 = solo(d, q1, n1), s2 = solo(d, q2, n2);
    {
      T t(d->root());
      auto r1 = t(q1, n1);
      auto r2 = t(q2, n2);
      auto i1 = r1.begin();
      auto i2 = r2.begin();
      auto e1 = r1.end();
      auto e2 = r2.end();
      Hits h1, h2;
      size_t steps = 0;
      while (steps++ < LIMIT) {
        bool live1 = !(i1 == e1), live2 = !(i2 == e2);
        if (!live1 && !live2) break;
        bool first = live1 && (!live2 || vp_choose("turn", 0, 1) == 0);
        if (first) { push(h1, *i1); ++i1; } else { push(h2, *i2); ++i2; }
      }
      vp_assert(same(h1, s1), "a query gives other results when another query runs beside it");
      vp_assert(same(h2, s2), "a query gives other results when another query runs beside it");
      vp_cover("interleaved");
      Hits h3;
      for (const R &c : r1) { push(h3, c); if (h3.size() > LIMIT) break; }
      vp_assert(same(h3, s1), "iterating a result range a second time gives other results");
    }
    delete d;
  }
  // ---- what happened before does not matter
  static void history() {
    std::vector<std::string> w = words(vp_param("dict", 0));
    SortedDawg *d = sorted_dawg(w.begin(), w.end());
    size_t qmax = vp_param("qmax", 2), nmax = vp_param("nmax", 2);
    std::string q1 = sym("q", 0, qmax), q2 = sym("r", 0, qmax);
    size_t n1 = vp_choose("n", 0, nmax), n2 = vp_choose("m", 0, nmax);
    vp_note("first query", q1.data(), q1.size());
    vp_note("second query", q2.data(), q2.size());
    Hits want = solo(d, q2, n2);
    {
      T t(d->root());
      { // abandoned after some steps
        auto r = t(q1, n1);
        auto i = r.begin();
        auto e = r.end();
        for (size_t k = vp_choose("steps", 0, vp_param("steps", 3)); k > 0 && !(i == e); k--) ++i;
      }
      Hits got;
      {
        std::string gone = q2;
        auto r = t(gone, n2);
        for (char &c : gone) c = 'z'; // the query is a copy
        gone.clear();
        for (const R &c : r) { push(got, c); if (got.size() > LIMIT) break; }
      }
      vp_assert(same(got, want), "a query gives other results after an earlier query");
      Hits again;
      for (const R &c : t(q2, n2)) { push(again, c); if (again.size() > LIMIT) break; }
      vp_assert(same(again, want), "repeating a query gives other results");
      vp_cover("repeated");
    }
    Hits later = solo(d, q2, n2);
    vp_assert(same(later, want), "a query on the dictionary gives other results after earlier queries");
    vp_assert(d->size() == w.size(), "querying changed the dictionary");
    for (auto &x : w) vp_assert(d->contains(x), "querying changed the dictionary");
    delete d;
  }
  // ---- a long series of queries before
  static void series() {
    std::vector<std::string> w = words(vp_param("dict", 0));
    SortedDawg *d = sorted_dawg(w.begin(), w.end()), *fresh = sorted_dawg(w.begin(), w.end());
    std::string q = sym("q", 0, vp_param("qmax", 2));
    size_t n = vp_choose("n", 0, vp_param("nmax", 2));
    Hits want = solo(fresh, q, n);
    {
      T t(d->root());
      uint32_t x = 7;
      for (size_t k = vp_param("calls", 100); k > 0; k--) {
        std::string p;
        size_t len = (x >> 20) % 5;
        for (size_t i = 0; i < len; i++) { x = x * 1103515245u + 12345u; p.push_back((char)('a' + (x >> 16) % 3)); }
        x = x * 1103515245u + 12345u;
        size_t c = 0;
        for (const R &r : t(p, (x >> 18) % 4)) { Hits h; push(h, r); if (++c > LIMIT) break; }
      }
      Hits got;
      for (const R &c : t(q, n)) { push(got, c); if (got.size() > LIMIT) break; }
      vp_assert(same(got, want), "a query gives other results after a series of other queries");
      vp_cover("asked");
    }
    delete d;
    delete fresh;
  }
  // ---- memory
  static void round(Dawg *d, const std::string &q, size_t n, size_t steps) {
    T t(d->root());
    std::string *given = new std::string(q); // a temporary of the caller
    auto r = t(*given, n);
    delete given;
    auto i = r.begin();
    auto e = r.end();
    size_t k = 0;
    while (k < steps && !(i == e)) {
      Hits h;
      push(h, *i);
      ++i;
      k++;
    }
    if (steps >= LIMIT) { ++i; } // past the end
    if (!(i == e)) vp_cover("abandoned"); else vp_cover("exhausted");
  }
  static void memory() {
    std::vector<std::string> w = words(vp_param("dict", 0));
    SortedDawg *d = sorted_dawg(w.begin(), w.end());
    std::string q = sym("q", vp_param("qmin", 0), vp_param("qmax", 3));
    size_t n = vp_u64("n");
    size_t steps = vp_choose("steps", 0, vp_param("steps", 3));
    if (steps == vp_param("steps", 3)) steps = LIMIT; // to the end
    vp_note("query", q.data(), q.size());
    vp_note("max_distance", nullptr, n);
    round(d, q, n, steps);
    uint64_t before = vp_live();
    round(d, q, n, steps);
    uint64_t after = vp_live();
    vp_note("live before", nullptr, before);
    vp_note("live after", nullptr, after);
    vp_assert(after <= before, "memory is left behind by a query");
    delete d;
  }
  // a range that is never iterated, and several iterations of one range
  static void memory2() {
    std::vector<std::string> w = words(vp_param("dict", 0));
    SortedDawg *d = sorted_dawg(w.begin(), w.end());
    std::string q = sym("q", 0, vp_param("qmax", 2));
    size_t n = vp_u64("n");
    uint64_t live[3];
    for (int k = 0; k < 3; k++) {
      {
        T t(d->root());
        { auto unused = t(q, n); }
        auto r = t(q, n);
        for (int z = 0; z < 2; z++) {
          size_t c = 0;
          for (const R &x : r) { Hits h; push(h, x); if (++c > LIMIT) break; }
        }
      }
      live[k] = vp_live();
    }
    vp_assert(live[2] <= live[1], "memory is left behind by a query");
    delete d;
  }
  // ---- threads
  struct Job { T *t; Dawg *d; std::string q; size_t n; Hits got; int read; bool in; size_t count; std::vector<std::string> terms; };
  static void job(void *p) {
    Job *j = (Job *)p;
    if (j->read == 2) { // a dictionary of its own
      SortedDawg *d = sorted_dawg(j->terms.begin(), j->terms.end());
      j->in = d->contains(j->q);
      for (const std::string &s : *d) { j->count += 1 + (s.size() > 100); if (j->count > LIMIT) break; }
      delete d;
      return;
    }
    if (j->read) {
      j->in = j->d->contains(j->q);
      for (const std::string &s : *j->d) { j->count += 1 + (s.size() > 100); if (j->count > LIMIT) break; }
      return;
    }
    for (const R &c : (*j->t)(j->q, j->n)) { push(j->got, c); if (j->got.size() > LIMIT) break; }
  }
  static void threads() {
    std::vector<std::string> w = words(vp_param("dict", 0));
    SortedDawg *d = sorted_dawg(w.begin(), w.end());
    std::string q1 = sym("q", 0, vp_param("qmax", 2)), q2 = sym("r", 0, vp_param("qmax", 2));
    size_t n1 = vp_choose("n", 0, vp_param("nmax", 2)), n2 = vp_choose("m", 0, vp_param("nmax", 2));
    // 1: a query beside a reader, 2: a query beside a builder, 3: two readers, 4: two builders
    int reader = (int)vp_param("reader", 0);
    bool shared = vp_param("shared", 1);
    // expected results: from dictionaries of their own, so that nothing is warmed up
    SortedDawg *d1 = sorted_dawg(w.begin(), w.end());
    Hits s1, s2;
    if (!vp_param("cold", 0)) { s1 = solo(d1, q1, n1); s2 = solo(d1, q2, n2); }
    {
      T t(d->root()), t2(d->root());
      Job a{&t, d, q1, n1, {}, reader == 3 ? 1 : reader == 4 ? 2 : 0, false, 0, w}, b{shared ? &t : &t2, d, q2, n2, {}, reader == 0 ? 0 : reader % 2 ? 1 : 2, false, 0, w};
      vp_spawn(job, &a);
      vp_spawn(job, &b);
      vp_join_all();
      if (vp_param("cold", 0)) { s1 = solo(d1, q1, n1); s2 = solo(d1, q2, n2); }
      for (Job *j : {&a, &b}) {
        if (!j->read) {
          vp_assert(same(j->got, j == &a ? s1 : s2), "a query gives other results beside another thread");
          continue;
        }
        vp_assert(j->count == w.size(), "iterating a dictionary beside another thread misses terms");
        bool in = false;
        for (auto &x : w) in = in || x == j->q;
        vp_assert(j->in == in, "membership is wrong beside another thread");
      }
      vp_cover("joined");
    }
    delete d;
    delete d1;
  }
  static void go() {
    switch (vp_param("scn", 0)) {
    case 0: interleave(); break;
    case 1: history(); break;
    case 2: memory(); break;
    case 3: memory2(); break;
    case 4: threads(); break;
    case 5: series(); break;
    }
  }
};
void vp_main() {
  bool s = vp_param("strings", 0);
  switch (vp_param("alg", 0)) {
  case 0: if (s) Life<Algorithm::STANDARD, std::string>::go(); else Life<Algorithm::STANDARD, Candidate>::go(); break;
  case 1: if (s) Life<Algorithm::TRANSPOSITION, std::string>::go(); else Life<Algorithm::TRANSPOSITION, Candidate>::go(); break;
  case 2: if (s) Life<Algorithm::MERGE_AND_SPLIT, std::string>::go(); else Life<Algorithm::MERGE_AND_SPLIT, Candidate>::go(); break;
  }
}
