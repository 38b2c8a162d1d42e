// Word graphs assembled from nodes by hand: not necessarily minimal, with
// shared nodes and nodes that lead nowhere.
#include "vp.h"
#include "ref.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/transducer/transducer.h"
#include <algorithm>
#include <map>
#include <string>
#include <vector>
using namespace liblevenshtein;

struct Graph {
  std::vector<std::map<unsigned char, size_t>> edges; // from each node, by label
  std::vector<bool> fin;
  std::vector<std::string> words;                     // what it spells
  SortedDawg *dawg = nullptr;
};
static void spell(Graph &g, size_t k, std::string &s) {
  if (g.fin[k]) g.words.push_back(s);
  for (auto &[l, t] : g.edges[k]) { s.push_back((char)l); spell(g, t, s); s.pop_back(); }
}
static void reach(Graph &g, size_t k, std::vector<bool> &r) {
  r[k] = true;
  for (auto &[l, t] : g.edges[k]) if (!r[t]) reach(g, t, r);
}
// any graph over `nodes` nodes whose edges lead to nodes of larger number;
// every node can be reached from the first
static Graph any_graph(const char *tag, bool trim) {
  Graph g;
  size_t n = vp_param("nodes", 3);
  static const unsigned char sets[][3] = {{'a', 'b', 'c'}, {0x00, 0x80, 0xff}};
  const unsigned char *labels = sets[vp_param("labels", 0)];
  g.edges.resize(n); g.fin.resize(n);
  size_t into = 0;
  std::vector<bool> has(n);
  for (size_t i = 0; i < n; i++) {
    g.fin[i] = vp_choose(tag, 0, 1);
    for (size_t l = 0; l < vp_param("letters", 2); l++) {
      size_t t = i + vp_choose(tag, 0, n - 1 - i);
      if (t > i) { g.edges[i][labels[l]] = t; has[t] = true; }
    }
    if (i > 0 && !has[i]) vp_assume(0);
    if (trim && !g.fin[i] && g.edges[i].empty() && i > 0) vp_assume(0);
  }
  std::vector<DawgNode *> node;
  for (size_t i = 0; i < n; i++) node.push_back(nullptr);
  unsigned how = (unsigned)vp_param("how", 0);
  for (size_t i = n; i-- > 0;) { // targets first
    if (how == 0) {
      node[i] = new DawgNode(g.fin[i]);
      for (auto &[l, t] : g.edges[i]) vp_assert(node[i]->add_edge((char)l, node[t]) == node[i], "add_edge does not return the node");
    } else {
      std::map<char, DawgNode *> e;
      for (auto &[l, t] : g.edges[i]) e[(char)l] = node[t];
      node[i] = new DawgNode(e);
      node[i]->is_final(g.fin[i]);
    }
  }
  std::string s;
  spell(g, 0, s);
  std::sort(g.words.begin(), g.words.end());
  g.dawg = new SortedDawg(node[0], g.words.size());
  for (size_t i = 0; i < n; i++) {
    vp_assert(node[i]->is_final() == g.fin[i], "a node forgot whether it is final");
    size_t seen = 0;
    node[i]->for_each_edge([&](char l, DawgNode *t) {
      auto e = g.edges[i].find((unsigned char)l);
      vp_assert(e != g.edges[i].end() && node[e->second] == t, "a node has an edge that was not added");
      seen++;
    });
    vp_assert(seen == g.edges[i].size(), "a node has lost an edge or repeats one");
  }
  return g;
}
static int count_in(const std::vector<std::string> &v, const std::string &s) {
  int k = 0;
  for (auto &w : v) k += ref_same(w, s);
  return k;
}
static std::string sym(const char *name, size_t lo, size_t hi) {
  std::string s;
  size_t n = vp_choose(name, lo, hi);
  for (size_t i = 0; i < n; i++) s.push_back((char)vp_u8(name));
  return s;
}
static void iterate(Graph &g) {
  for (int round = 0; round < 2; round++) {
    std::vector<std::string> got;
    for (std::string w : *g.dawg) {
      got.push_back(w);
      vp_assert(got.size() <= g.words.size(), "the iteration yields more words than the graph spells");
    }
    std::sort(got.begin(), got.end());
    vp_assert(got == g.words, "the iteration does not yield the words the graph spells");
  }
}
template <Algorithm A> static void query(int alg, Graph &g) {
  std::string q = sym("q", 0, vp_param("qmax", 2));
  uint64_t n = vp_u64("n");
  Transducer<A, Candidate> t(g.dawg->root());
  std::vector<std::pair<std::string, uint64_t>> hits;
  for (const Candidate &c : t(q, n)) {
    hits.push_back({c.first, c.second});
    vp_assert(hits.size() <= g.words.size(), "a query yields more candidates than the graph spells words");
  }
  for (auto &w : g.words) {
    uint64_t d = ref_distance(alg, q, w), k = 0, reported = 0;
    for (auto &h : hits) if (h.first == w) { k++; reported = h.second; }
    vp_assert(k <= 1, "a candidate is reported twice");
    if (k) {
      vp_assert(d <= n, "a candidate lies farther away than the maximum distance");
      vp_assert(reported == d, "a wrong distance is reported");
    } else
      vp_assert(d > n, "a word within the maximum distance is missing");
  }
  for (auto &h : hits) vp_assert(count_in(g.words, h.first), "a candidate is not spelled by the graph");
}
void vp_main() {
  uint64_t before = vp_live();
  for (int round = 0; round < 1; round++) {
    switch (vp_param("scn", 0)) {
    case 0: { // membership and iteration
      Graph g = any_graph("g", false);
      vp_assert(g.dawg->size() == g.words.size(), "the size is not the given one");
      iterate(g);
      std::string p = sym("p", 0, vp_param("pmax", 2));
      vp_assert(g.dawg->contains(p) == (count_in(g.words, p) > 0), "membership differs from the words the graph spells");
      if (g.words.empty()) vp_cover("empty"); else vp_cover("words");
      delete g.dawg;
      break;
    }
    case 1: { // queries
      Graph g = any_graph("g", false);
      switch (vp_param("alg", 0)) {
      case 0: query<Algorithm::STANDARD>(0, g); break;
      case 1: query<Algorithm::TRANSPOSITION>(1, g); break;
      case 2: query<Algorithm::MERGE_AND_SPLIT>(2, g); break;
      }
      vp_cover("queried");
      delete g.dawg;
      break;
    }
    case 2: { // equality of any two, and with a built (minimal) dictionary
      Graph g = any_graph("g", true);
      if (vp_param("built", 0)) {
        std::vector<std::string> v = g.words;
        SortedDawg *m = sorted_dawg(v.begin(), v.end());
        vp_assert(m != nullptr, "a sorted list of terms was rejected");
        vp_assert((*m == *g.dawg) && (*g.dawg == *m), "dictionaries with the same words differ");
        vp_assert(!(*m != *g.dawg), "two dictionaries are equal and unequal");
        vp_assert(std::hash<Dawg>()(*m) == std::hash<Dawg>()(*g.dawg), "equal dictionaries have different hash codes");
        delete m;
      } else {
        Graph h = any_graph("h", true);
        bool same = g.words == h.words;
        if (same) vp_cover("equal"); else vp_cover("different");
        vp_assert((*g.dawg == *h.dawg) == same, "equality differs from equality of the words");
        vp_assert((*h.dawg == *g.dawg) == same, "equality depends on the order of the operands");
        if (same) vp_assert(std::hash<Dawg>()(*g.dawg) == std::hash<Dawg>()(*h.dawg), "equal dictionaries have different hash codes");
        delete h.dawg;
      }
      delete g.dawg;
      break;
    }
    case 3: { // an edge replaced: the node it led to is freed
      DawgNode *root = new DawgNode(vp_choose("final", 0, 1));
      char a = (char)vp_u8("a"), b = (char)vp_u8("b"), c = (char)vp_u8("c");
      DawgNode *x = new DawgNode(true), *y = new DawgNode(false);
      DawgNode *shared = new DawgNode(true);
      y->add_edge('z', shared);
      if (vp_choose("own", 0, 1)) x->add_edge('w', shared);
      root->add_edge(a, x);
      vp_assert(root->transition(a) == x, "an edge that was added is not found");
      vp_assert(root->transition(b) == (a == b ? x : nullptr), "a missing edge is found, or one that was added is not");
      root->add_edge(b, y);
      vp_assert(root->transition(b) == y, "the later of two edges with the same letter does not count");
      if (a != b) vp_assert(root->transition(a) == x, "another letter's edge was lost");
      DawgNode *t = root->transition(c);
      vp_assert(c == b ? t == y : c == a ? t == x : t == nullptr, "an edge leads to the wrong node");
      SortedDawg *d = new SortedDawg(root, 1);
      vp_cover(a == b ? "replaced" : "added");
      delete d;
      break;
    }
    case 5: { // one very long word and its first half
      size_t depth = vp_param("depth", 1000);
      auto letter = [](size_t i) { return (char)('a' + (i * 7 + i / 5) % 3); };
      std::string w;
      for (size_t i = 0; i < depth; i++) w.push_back(letter(i));
      DawgNode *n = new DawgNode(true);
      for (size_t i = depth; i-- > 0;) { DawgNode *m = new DawgNode(i == depth / 2); m->add_edge(w[i], n); n = m; }
      SortedDawg *d = new SortedDawg(n, 2);
      std::string half = w.substr(0, depth / 2), q = w;
      static const size_t at[] = {0, 1, 2, 3};
      size_t k = at[vp_choose("at", 0, 3)];
      k = k == 0 ? 0 : k == 1 ? depth / 2 : k == 2 ? depth - 1 : depth - 2;
      int op = (int)vp_choose("op", 0, 3);
      char c = (char)vp_u8("c");
      if (op == 0) q[k] = c;
      else if (op == 1) q.insert(q.begin() + k, c);
      else if (op == 2) q.erase(q.begin() + k);
      bool same = op == 0 ? (bool)vp_concrete(c == w[k]) : op == 1 ? false : op == 2 ? false : true;
      vp_assert(d->contains(q) == same, "membership differs from the words the graph spells");
      vp_assert(d->contains(half), "membership differs from the words the graph spells");
      if (vp_param("iterate", 1)) {
        size_t count = 0;
        for (std::string s : *d) {
          count++;
          vp_assert(s == (count == 1 ? half : w), "the iteration does not yield the words the graph spells");
        }
        vp_assert(count == 2, "the iteration does not yield the words the graph spells");
      }
      auto ask = [&](auto &t) {
        size_t hits = 0;
        for (const Candidate &x : t(q, 1)) {
          vp_assert(x.first == w, "a candidate lies farther away than the maximum distance");
          vp_assert(x.second == (same ? 0u : 1u), "a wrong distance is reported");
          hits++;
        }
        vp_assert(hits == 1, "a word within the maximum distance is missing");
      };
      switch (vp_param("alg", 0)) {
      case 0: { Transducer<Algorithm::STANDARD, Candidate> t(d->root()); ask(t); break; }
      case 1: { Transducer<Algorithm::TRANSPOSITION, Candidate> t(d->root()); ask(t); break; }
      case 2: { Transducer<Algorithm::MERGE_AND_SPLIT, Candidate> t(d->root()); ask(t); break; }
      }
      delete d;
      vp_cover("asked");
      break;
    }
    case 4: { // many ways to few nodes: work must not grow with the number of ways
      size_t depth = vp_param("depth", 40);
      DawgNode *last = new DawgNode(true);
      for (size_t i = 0; i < depth; i++) {
        DawgNode *n = new DawgNode(false);
        n->add_edge('a', last);
        n->add_edge('b', last);
        last = n;
      }
      SortedDawg *d = new SortedDawg(last, (size_t)1 << depth);
      std::string p(depth, 'a');
      p[depth / 2] = (char)vp_u8("p");
      vp_assert(d->contains(p) == ((int)(p[depth / 2] == 'a') | (int)(p[depth / 2] == 'b')), "membership differs from the words the graph spells");
      delete d;
      vp_cover("freed");
      break;
    }
    }
  }
  vp_assert(vp_live() == before, "memory is still allocated after everything was released");
}
