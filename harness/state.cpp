// Levenshtein states: lists of positions.
#include "vp.h"
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include <vector>
using namespace liblevenshtein;

struct P { uint64_t i, e; bool s; };
static const char *const KEEP = "a state does not hold the positions it was given";
static P any(bool special) {
  P p;
  p.i = vp_u64("i");
  p.e = vp_u64("e");
  p.s = special && vp_choose("special", 0, 1);
  return p;
}
static int same(const P &a, const P &b) { return (int)(a.i == b.i) & (int)(a.e == b.e) & (int)(a.s == b.s); }
static bool eq(const P &a, const P &b) { return same(a, b) != 0; }
static int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
template <Algorithm A> struct Run {
  static constexpr bool special = A != Algorithm::STANDARD;
  static Position *make(const P &p) { return new Position(p.i, p.e, p.s); }
  static int order(const P &a, const P &b) { // lexicographic
    if (a.i != b.i) return a.i < b.i ? -1 : 1;
    if (a.e != b.e) return a.e < b.e ? -1 : 1;
    return (int)a.s - (int)b.s;
  }
  static void comparing() {
    P a = any(special), b = any(special), c = any(special);
    Position x(a.i, a.e, a.s), y(b.i, b.e, b.s), z(c.i, c.e, c.s);
    int xy = sign(compare<A>(&x, &y)), yx = sign(compare<A>(&y, &x)), yz = sign(compare<A>(&y, &z)), xz = sign(compare<A>(&x, &z));
    vp_assert(xy == order(a, b), "positions are not ordered by index, errors and kind");
    vp_assert(xy == -yx, "the order of positions is not antisymmetric");
    vp_assert(!(xy <= 0 && yz <= 0) || xz <= 0, "the order of positions is not transitive");
    vp_assert(compare<A>(&x, &x) == 0, "a position differs from itself");
    vp_cover("compared");
  }
  static void sorting() {
    size_t k = vp_choose("count", 0, vp_param("count", 4));
    std::vector<P> in;
    std::vector<Position *> ps;
    for (size_t j = 0; j < k; j++) { in.push_back(any(special)); ps.push_back(make(in[j])); }
    State s(ps);
    s.sort(compare<A>);
    std::vector<int> used(k, 0);
    size_t n = 0;
    P last{};
    for (Position *p : s) {
      vp_assert(++n <= k, KEEP);
      size_t at = k;
      for (size_t j = 0; j < k; j++) if (ps[j] == p) at = j;
      vp_assert(at < k && !used[at], KEEP);
      used[at] = 1;
      P q{p->term_index(), p->num_errors(), p->is_special()};
      vp_assert(eq(q, in[at]), "sorting changed a position");
      if (n > 1) vp_assert(order(last, q) <= 0, "a sorted state is not in ascending order");
      last = q;
    }
    vp_assert(n == k, KEEP);
    vp_cover("sorted");
  }
  static void merging() {
    State s;
    std::vector<P> all;
    for (int batch = 0; batch < 2; batch++) {
      size_t k = vp_choose("count", 0, vp_param("count", 2));
      std::vector<Position *> ps;
      for (size_t j = 0; j < k; j++) { P p = any(special); all.push_back(p); ps.push_back(make(p)); }
      merge<A>(&s, ps);
    }
    std::vector<P> got;
    for (Position *p : s) {
      got.push_back({p->term_index(), p->num_errors(), p->is_special()});
      vp_assert(got.size() <= all.size(), KEEP);
    }
    for (size_t a = 0; a < got.size(); a++) {
      for (size_t b = 0; b < a; b++) vp_assert(!eq(got[a], got[b]), "a merged state holds a position twice");
      int in = 0;
      for (auto &p : all) in |= same(p, got[a]);
      vp_assert(in, KEEP);
    }
    for (auto &p : all) {
      int in = 0;
      for (auto &q : got) in |= same(p, q);
      vp_assert(in, "merging lost a position");
    }
    vp_cover("merged");
  }
};
static void same(State &s, const std::vector<Position *> &model) {
  size_t n = 0;
  for (Position *p : s) {
    vp_assert(n < model.size() && model[n] == p && p->num_errors() == p->term_index() + 1, KEEP);
    n++;
  }
  vp_assert(n == model.size(), KEEP);
  vp_assert(s.head() == (model.empty() ? nullptr : model[0]), "the head of a state is not its first position");
}
static void editing() {
  uint64_t next = 0;
  auto fresh = [&] { Position *p = new Position(next, next + 1); next++; return p; };
  std::vector<Position *> model;
  auto start = [&](State &s) {
    for (size_t ops = vp_choose("ops", 0, vp_param("ops", 4)); ops-- > 0;) {
      size_t n = model.size();
      switch (vp_choose("op", 0, 5)) {
      case 0: { Position *p = fresh(); s.head(p); model.insert(model.begin(), p); break; }
      case 1: { Position *p = fresh(); s.add(p); model.push_back(p); break; }
      case 2: {
        vp_assume(n > 0);
        size_t at = vp_choose("at", 0, n - 1);
        Position *p = fresh();
        s.insert_after(model[at], p);
        model.insert(model.begin() + at + 1, p);
        break;
      }
      case 3: {
        vp_assume(n > 0);
        size_t at = vp_choose("at", 0, n - 1);
        s.remove(at ? model[at - 1] : nullptr, model[at]);
        model.erase(model.begin() + at);
        break;
      }
      case 4: { // remove any subset while iterating
        vp_assume(n > 0);
        std::vector<Position *> left;
        StateIterator it = s.begin(), end = s.end();
        for (size_t k = 0; k < n; k++) {
          vp_assert(*it == model[k], "iterating a state while removing misses or repeats a position");
          if (vp_choose("remove", 0, 1)) it.remove(); else left.push_back(model[k]);
          ++it;
        }
        vp_assert(it == end, "iterating a state while removing does not end");
        model = left;
        break;
      }
      case 5: { // insert after one while iterating
        vp_assume(n > 0);
        size_t at = vp_choose("at", 0, n - 1);
        Position *p = fresh();
        StateIterator it = s.begin(), end = s.end();
        for (size_t k = 0; k < at; k++) ++it;
        it.insert(p);
        model.insert(model.begin() + at + 1, p);
        for (size_t k = at; k < model.size(); k++) { vp_assert(*it == model[k], "iterating a state while inserting misses or repeats a position"); ++it; }
        vp_assert(it == end, "iterating a state while inserting does not end");
        break;
      }
      }
      same(s, model);
    }
  };
  switch (vp_choose("start", 0, 3)) {
  case 0: { State s; same(s, model); start(s); break; }
  case 1: { for (int k = 0; k < 2; k++) model.push_back(fresh()); State s{model[0], model[1]}; same(s, model); start(s); break; }
  case 2: { for (int k = 0; k < 3; k++) model.push_back(fresh()); std::vector<Position *> v = model; State s(v); same(s, model); start(s); break; }
  case 3: { std::vector<Position *> v; State s(v); same(s, model); start(s); break; }
  }
  vp_cover("edited");
}
template <Algorithm A> static void go() {
  switch (vp_param("scn", 0)) {
  case 0: Run<A>::sorting(); break;
  case 1: editing(); break;
  case 2: Run<A>::merging(); break;
  case 3: Run<A>::comparing(); break;
  }
}
void vp_main() {
  uint64_t before = vp_live();
  switch (vp_param("alg", 0)) {
  case 0: go<Algorithm::STANDARD>(); break;
  case 1: go<Algorithm::TRANSPOSITION>(); break;
  case 2: go<Algorithm::MERGE_AND_SPLIT>(); break;
  }
  vp_assert(vp_live() == before, "positions are still allocated after their state was destroyed");
}
