// Saving and loading dictionaries.
#include "vp.h"
#include "ref.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/transducer.h"
#include "vpfs.h"
#include <algorithm>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace liblevenshtein;
namespace llp2 = liblevenshtein::proto;

static std::string sym(const char *name, size_t lo, size_t hi) {
  std::string s;
  size_t n = vp_choose(name, lo, hi);
  for (size_t i = 0; i < n; i++) s.push_back((char)vp_u8(name));
  return s;
}
static void note(const char *l, const std::string &s) { vp_note(l, s.data(), s.size()); }
static void all_words(std::vector<std::string> &out, const std::string &alpha, size_t maxlen) {
  std::vector<std::string> layer{""};
  for (size_t l = 0; l <= maxlen; l++) {
    std::vector<std::string> next;
    for (auto &w : layer) { out.push_back(w); if (l < maxlen) for (char c : alpha) next.push_back(w + c); }
    layer = next;
  }
  std::sort(out.begin(), out.end());
}
static std::vector<std::string> words(const char *tag) {
  std::vector<std::string> v;
  switch (vp_param("dict", 0)) {
  case 0: { // any subset of all words over {a,b} up to dlen
    std::vector<std::string> u;
    all_words(u, "ab", vp_param("dlen", 2));
    for (auto &w : u) if (vp_choose(tag, 0, 1)) v.push_back(w);
    break;
  }
  case 1: { // arbitrary strings
    size_t k = vp_choose("count", vp_param("tmin", 0), vp_param("terms", 2));
    for (size_t i = 0; i < k; i++) v.push_back(sym(tag, 0, vp_param("tmax", 2)));
    for (size_t i = 1; i < v.size(); i++) vp_assume(v[i - 1] < v[i]);
    break;
  }
  case 2: { // any subset of words with shared suffixes and bytes at the edges of their range
    const std::string u[] = {std::string("\0", 1), std::string("\0\xff", 2), "ation", "nation", "nations", "ration", "\x7f", "\x80", "\xff\xff"};
    for (auto &w : u) if (vp_choose(tag, 0, 1)) v.push_back(w);
    break;
  }
  case 3: { // a node with an edge for every byte
    for (unsigned c = 0; c < 256; c++) { v.push_back(std::string(1, (char)c)); if (c % 64 == 0) v.push_back(std::string(1, (char)c) + "x"); }
    break;
  }
  case 4: { // large enough for several buffers of output
    for (unsigned a = 0; a < 26; a++)
      for (unsigned b = 0; b < vp_param("width", 6); b++) {
        std::string w;
        w.push_back((char)('a' + a));
        w.push_back((char)('a' + b));
        for (unsigned i = 0; i < vp_param("tail", 8); i++) w.push_back((char)('a' + (a * 31 + b * 7 + i * (a + 3 * b + 1)) % 26));
        v.push_back(w);
      }
    break;
  }
  }
  return v;
}
static SortedDawg *build(std::vector<std::string> v) {
  SortedDawg *d = sorted_dawg(v.begin(), v.end());
  vp_assert(d != nullptr, "a sorted list of terms was rejected");
  return d;
}
static bool save(Dawg *d, const std::string &path, int how) {
  switch (how) {
  case 0: return serialize_protobuf(d, std::filesystem::path(path));
  case 1: return serialize_protobuf(d, path);
  default: return serialize_protobuf(d, path.c_str());
  }
}
static Dawg *load(const std::string &path, int how) {
  switch (how) {
  case 0: return deserialize_protobuf(std::filesystem::path(path));
  case 1: return deserialize_protobuf(path);
  default: return deserialize_protobuf(path.c_str());
  }
}
static void collect(DawgNode *n, std::set<DawgNode *> &seen) {
  if (!seen.insert(n).second) return;
  n->for_each_edge([&](char, DawgNode *t) { collect(t, seen); });
}
static size_t node_count(Dawg *d) {
  std::set<DawgNode *> seen;
  collect(d->root(), seen);
  return seen.size();
}
static bool walk(DawgNode *n, std::vector<DawgNode *> &path, size_t &steps) {
  if (++steps > 400) return true;
  for (DawgNode *x : path) if (x == n) return false;
  path.push_back(n);
  bool ok = true;
  n->for_each_edge([&](char, DawgNode *t) { if (ok) ok = walk(t, path, steps); });
  path.pop_back();
  return ok;
}
// the terms of d are exactly v
static void same_terms(Dawg *d, const std::vector<std::string> &v, const char *msg) {
  vp_assert(d->size() == v.size(), msg);
  std::vector<int> seen(v.size(), 0);
  size_t n = 0;
  for (const std::string &s : *d) {
    vp_assert(++n <= v.size(), msg);
    int k = -1;
    for (size_t i = 0; i < v.size() && k < 0; i++) if (s == v[i]) k = (int)i;
    vp_assert(k >= 0, msg);
    vp_assert(seen[k]++ == 0, msg);
  }
  vp_assert(n == v.size(), msg);
  for (auto &w : v) vp_assert(d->contains(w), msg);
}
static void same_dictionary(Dawg *a, Dawg *b, const std::vector<std::string> &v) {
  same_terms(a, v, "saving changed the dictionary");
  same_terms(b, v, "the reloaded dictionary has other terms");
  vp_assert(*a == *b && *b == *a, "the reloaded dictionary is not equal to the saved one");
  if (vp_param("ask", 1)) {
    std::string q = sym("q", 0, vp_param("qmax", 1));
    note("probe", q);
    vp_assert(a->contains(q) == b->contains(q), "the reloaded dictionary answers differently");
    size_t n = vp_choose("n", 0, 2);
    Transducer<Algorithm::TRANSPOSITION, Candidate> ta(a->root()), tb(b->root());
    std::vector<Candidate> ca, cb;
    for (const Candidate &c : ta(q, n)) { ca.push_back(c); if (ca.size() > v.size()) break; }
    for (const Candidate &c : tb(q, n)) { cb.push_back(c); if (cb.size() > v.size()) break; }
    vp_assert(ca.size() == cb.size(), "a query finds a different number of terms in the reloaded dictionary");
    for (auto &x : ca) {
      bool in = false;
      for (size_t j = 0; j < cb.size() && !in; j++) in = cb[j].first == x.first && cb[j].second == x.second;
      vp_assert(in, "a query finds different terms in the reloaded dictionary");
    }
  }
}
static void by_stream() {
  std::vector<std::string> v = words("w");
  for (auto &w : v) note("term", w);
  SortedDawg *d = build(v);
  std::stringstream s;
  vp_assert(serialize_protobuf(d, s), "saving to a good stream reports failure");
  Dawg *e = deserialize_protobuf(s);
  vp_assert(e != nullptr, "a saved dictionary cannot be loaded");
  same_dictionary(d, e, v);
  // saving the reloaded dictionary again
  std::stringstream s2;
  vp_assert(serialize_protobuf(e, s2), "saving to a good stream reports failure");
  delete d;
  delete e;
  Dawg *f = deserialize_protobuf(s2);
  vp_assert(f != nullptr, "a saved dictionary cannot be loaded");
  same_terms(f, v, "the reloaded dictionary has other terms");
  delete f;
  vp_cover(v.empty() ? "empty" : "terms");
}
static void by_message() {
  std::vector<std::string> v = words("w");
  for (auto &w : v) note("term", w);
  SortedDawg *d = build(v);
  llp2::Dictionary *m = to_protobuf(d);
  Dawg *e = from_protobuf(*m), *f = from_protobuf(*m);
  delete m;
  vp_assert(e != nullptr && f != nullptr, "a saved dictionary cannot be loaded");
  same_dictionary(d, e, v);
  delete e;
  same_terms(f, v, "the reloaded dictionary shares state with another one");
  delete d;
  same_terms(f, v, "the reloaded dictionary shares state with another one");
  delete f;
  vp_cover(v.empty() ? "empty" : "terms");
}
static void by_path() {
  std::vector<std::string> v = words("w");
  for (auto &w : v) note("term", w);
  SortedDawg *d = build(v);
  static const char *const names[] = {"dict.pb", "no_extension", ".hidden", "two words.with.a-long-extension", "\xc3\xa4\xff.x", "x."};
  std::string p = vpfs_path(names[vp_choose("name", 0, vp_param("names", 0))]), other = vpfs_path("other.pb");
  switch (vp_choose("before", 0, 2)) {
  case 0: break;
  case 1: vpfs_put(p, std::string(600, 'x')); break;                     // longer garbage
  case 2: { // a larger dictionary
    std::vector<std::string> big;
    all_words(big, "abc", 2);
    SortedDawg *b = build(big);
    vp_assert(save(b, p, 1), "saving to a file reports failure");
    delete b;
    break;
  }
  }
  vpfs_put(other, "untouched");
  int how = (int)vp_choose("save", 0, 2), back = (int)vp_choose("load", 0, 2);
  vp_assert(save(d, p, how), "saving to a file reports failure");
  std::string bytes1, bytes2;
  vp_assert(vpfs_get(p, bytes1), "there is no file after saving");
  Dawg *e = load(p, back);
  vp_assert(e != nullptr, "a saved dictionary cannot be loaded");
  vp_assert(vpfs_get(p, bytes2) && bytes1 == bytes2, "loading changed the file");
  vp_assert(vpfs_get(other, bytes2) && bytes2 == "untouched", "saving or loading changed another file");
  same_dictionary(d, e, v);
  delete d;
  delete e;
  vpfs_remove(p);
  vpfs_remove(other);
  vp_cover("done");
}
static void round(const std::vector<std::string> &v, int how, uint64_t cut) {
  SortedDawg *d = build(v);
  std::stringstream s;
  serialize_protobuf(d, s);
  if (how == 0) {
    Dawg *e = deserialize_protobuf(s);
    delete e;
  } else if (how == 1) {
    std::string t = s.str();
    std::stringstream u(t.substr(0, t.size() * cut / 8));
    Dawg *e = deserialize_protobuf(u);
    delete e;
  } else {
    std::string p = vpfs_path("m.pb");
    save(d, p, 2);
    Dawg *e = load(p, 2);
    delete e;
    vpfs_remove(p);
  }
  delete d;
}
static void memory() {
  std::vector<std::string> v = words("w");
  int how = (int)vp_choose("how", 0, 2);
  uint64_t cut = how == 1 ? vp_choose("cut", 0, 7) : 0;
  for (auto &w : v) note("term", w);
  uint64_t live[3];
  for (int i = 0; i < 3; i++) { round(v, how, cut); live[i] = vp_live(); }
  vp_note("live before", nullptr, live[1]);
  vp_note("live after", nullptr, live[2]);
  vp_assert(live[2] <= live[1], "memory is left behind by saving or loading");
  vp_cover("done");
}
// ---- files that are not what was saved ------------------------------------
// null, or a well-formed dictionary whose terms agree with its size
static void well_formed(Dawg *e) {
  vp_note("loaded", nullptr, e != nullptr);
  if (!e) { vp_cover("refused"); return; }
  vp_cover("loaded");
  std::vector<DawgNode *> path;
  size_t steps = 0;
  vp_assert(e->root() != nullptr, "a dictionary without root was loaded");
  vp_assert(walk(e->root(), path, steps), "a cyclic dictionary was loaded");
  size_t n = 0;
  std::vector<std::string> seen;
  for (const std::string &s : *e) {
    vp_assert(++n <= 64, "a loaded dictionary does not stop yielding terms");
    for (auto &t : seen) vp_assert(!(t == s), "a loaded dictionary yields a term twice");
    vp_assert(e->contains(s), "a loaded dictionary does not contain a term it yields");
    seen.push_back(s);
  }
  vp_assert(n == e->size(), "the size of a loaded dictionary is not its number of terms");
}
static void truncated() {
  std::vector<std::string> v = words("w");
  for (auto &w : v) note("term", w);
  SortedDawg *d = build(v);
  std::stringstream s;
  vp_assert(serialize_protobuf(d, s), "saving to a good stream reports failure");
  std::string t = s.str();
  size_t keep = vp_choose("keep", 0, t.size() - 1);
  vp_note("bytes saved", nullptr, t.size());
  vp_note("bytes left", nullptr, keep);
  t.resize(keep);
  Dawg *e;
  if (vp_param("file", 0)) {
    std::string p = vpfs_path("cut.pb");
    vpfs_put(p, t);
    e = load(p, (int)vp_choose("load", 0, 2));
    vpfs_remove(p);
  } else {
    std::stringstream u(t);
    e = deserialize_protobuf(u);
  }
  if (e) {
    vp_assert(*e == *d && e->size() == d->size(), "a truncated dictionary was loaded with other terms");
    vp_cover("loaded");
  } else vp_cover("refused");
  delete e;
  delete d;
}
static void missing() {
  std::string p = vpfs_path("missing.pb");
  std::string bad = vpfs_path("missing/dict.pb");
  int how = (int)vp_choose("load", 0, 2);
  vp_assert(load(p, how) == nullptr, "a dictionary was loaded from a file that does not exist");
  vp_assert(load(bad, how) == nullptr, "a dictionary was loaded from a file that does not exist");
  std::string folder = vpfs_path("folder.pb");
  vpfs_mkdir(folder);
  vp_assert(load(folder, how) == nullptr, "a dictionary was loaded from a folder");
  vp_assert(load("", how) == nullptr, "a dictionary was loaded from no file");
  vpfs_put(p, "");
  vp_assert(load(p, how) == nullptr, "a dictionary was loaded from an empty file");
  vpfs_remove(p);
  std::stringstream s;
  vp_assert(deserialize_protobuf(s) == nullptr, "a dictionary was loaded from an empty stream");
  std::stringstream f("x");
  f.setstate(std::ios::failbit);
  vp_assert(deserialize_protobuf(f) == nullptr, "a dictionary was loaded from a failed stream");
  vp_cover("done");
}
// any message with a few nodes and edges; ids may repeat or be missing
static void any_message() {
  uint64_t live0, live1;
  size_t nn = vp_choose("nodes", 0, vp_param("nodes", 2)), nf = vp_choose("finals", 0, vp_param("finals", 1)), ne = vp_choose("edges", 0, vp_param("edges", 2));
  uint64_t node[4], fin[3], src[4], dst[4], root = vp_u64("root"), size = vp_u64("size");
  uint32_t lab[4];
  for (size_t i = 0; i < nn; i++) node[i] = vp_u64("node");
  for (size_t i = 0; i < nf; i++) fin[i] = vp_u64("final");
  for (size_t i = 0; i < ne; i++) { src[i] = vp_u64("source"); dst[i] = vp_u64("target"); lab[i] = (uint32_t)vp_u64("label"); }
  for (int r = 0; r < 3; r++) {
    llp2::Dictionary m;
    for (size_t i = 0; i < nn; i++) m.add_node_id(node[i]);
    for (size_t i = 0; i < nf; i++) m.add_final_node_id(fin[i]);
    for (size_t i = 0; i < ne; i++) { auto *e = m.add_edge(); e->set_source_id(src[i]); e->set_label(lab[i]); e->set_target_id(dst[i]); }
    m.set_root_id(root);
    m.set_size(size);
    Dawg *d = from_protobuf(m);
    if (r == 0) well_formed(d);
    delete d;
    if (r == 1) live0 = vp_live();
    if (r == 2) live1 = vp_live();
  }
  vp_assert(live1 <= live0, "memory is left behind by loading");
}
// a valid file with small node ids, one of its bytes replaced
static std::string canned() {
  llp2::Dictionary m;
  for (uint64_t i = 1; i <= 4; i++) m.add_node_id(i);
  m.add_final_node_id(2);
  m.add_final_node_id(4);
  auto edge = [&](uint64_t s, char l, uint64_t t) { auto *e = m.add_edge(); e->set_source_id(s); e->set_label((uint32_t)l); e->set_target_id(t); };
  edge(1, 'a', 2);
  edge(1, 'b', 3);
  edge(2, 'c', 4);
  edge(3, 'c', 4);
  m.set_root_id(1);
  m.set_size(3);
  std::string s;
  m.SerializeToString(&s);
  return s;
}
static void corrupt() {
  std::string t = canned();
  for (size_t k = vp_param("bytes", 1); k-- > 0;) {
    size_t at = vp_choose("at", 0, t.size() - 1);
    vp_note("at", nullptr, at);
    t[at] = (char)vp_u8("byte");
  }
  if (vp_param("cut", 0)) t.resize(vp_choose("keep", 0, t.size()));
  std::stringstream u(t);
  Dawg *e = deserialize_protobuf(u);
  well_formed(e);
  delete e;
}
static void any_bytes() {
  std::string t = sym("b", 0, vp_param("bytes", 3));
  std::stringstream u(t);
  Dawg *e = deserialize_protobuf(u);
  well_formed(e);
  delete e;
}
// ---- saving that cannot succeed --------------------------------------------
static void full_disk() {
  std::vector<std::string> v = words("w");
  for (auto &w : v) note("term", w);
  SortedDawg *d = build(v);
  std::string p = vpfs_path("full.pb");
  int how = (int)vp_choose("save", 0, 2);
  std::stringstream s;
  vp_assert(serialize_protobuf(d, s), "saving to a good stream reports failure");
  size_t need = s.str().size();
  std::vector<uint64_t> room;
  if (vp_param("allroom", 1)) for (size_t i = 0; i <= need; i++) room.push_back(i);
  else
    for (size_t x : {(size_t)0, (size_t)1, (size_t)1023, (size_t)4095, (size_t)4096, (size_t)8190, (size_t)8191, (size_t)8192, (size_t)8193, need / 2, need - 8192, need - 1, need})
      if (x <= need) room.push_back(x);
  uint64_t r = room[vp_choose("room", 0, room.size() - 1)];
  vp_note("bytes needed", nullptr, need);
  vp_note("bytes available", nullptr, r);
  vpfs_limit(r);
  bool ok = save(d, p, how);
  vpfs_limit(~0ull);
  vp_note("reported", nullptr, ok);
  if (r >= need) vp_assert(ok, "saving to a file reports failure");
  std::string bytes;
  if (r < need) vp_assert(!ok, "saving reported success though not everything was written");
  if (ok) {
    Dawg *e = load(p, how);
    vp_assert(e != nullptr && *e == *d, "saving reported success but the file does not hold the dictionary");
    delete e;
    vp_cover("saved");
  } else vp_cover("failed");
  same_terms(d, v, "saving changed the dictionary");
  vpfs_remove(p);
  delete d;
}
struct FailBuf : std::streambuf {
  uint64_t room;
  std::string got;
  FailBuf(uint64_t r) : room(r) {}
  int_type overflow(int_type c) override {
    if (got.size() >= room) return traits_type::eof();
    if (c != traits_type::eof()) got.push_back((char)c);
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::streamsize k = 0;
    while (k < n && got.size() < room) got.push_back(s[k++]);
    return k;
  }
};
static void bad_stream() {
  std::vector<std::string> v = words("w");
  for (auto &w : v) note("term", w);
  SortedDawg *d = build(v);
  std::stringstream s;
  vp_assert(serialize_protobuf(d, s), "saving to a good stream reports failure");
  size_t need = s.str().size();
  uint64_t r = vp_choose("room", 0, need);
  vp_note("bytes needed", nullptr, need);
  vp_note("bytes accepted", nullptr, r);
  FailBuf b(r);
  std::ostream o(&b);
  int state = (int)vp_choose("state", 0, 2);
  if (state == 1) o.setstate(std::ios::failbit);
  if (state == 2) o.setstate(std::ios::badbit);
  bool ok = serialize_protobuf(d, o);
  if (state || r < need) vp_assert(!ok, "saving reported success though not everything was written");
  else vp_assert(ok, "saving to a good stream reports failure");
  vp_cover(ok ? "saved" : "failed");
  if (ok) {
    std::stringstream u(b.got);
    Dawg *e = deserialize_protobuf(u);
    vp_assert(e != nullptr && *e == *d, "saving reported success but the stream does not hold the dictionary");
    delete e;
  }
  delete d;
}
static void no_dir() {
  std::vector<std::string> v = words("w");
  SortedDawg *d = build(v);
  int how = (int)vp_choose("save", 0, 2);
  std::string p;
  switch (vp_choose("where", 0, 2)) {
  case 0: p = vpfs_path("missing/dict.pb"); break;
  case 1: p = vpfs_path("folder.pb"); vpfs_mkdir(p); break;
  case 2: break; // no name at all
  }
  if (save(d, p, how)) {
    Dawg *e = load(p, how);
    vp_assert(e != nullptr && *e == *d, "saving to a path that cannot be opened reported success");
    delete e;
  }
  same_terms(d, v, "saving changed the dictionary");
  vp_cover("done");
  delete d;
}
// few nodes, many ways from one to the next: 2^depth terms
static void many_paths() {
  size_t depth = vp_param("depth", 40), dead = vp_param("dead", 0);
  llp2::Dictionary m;
  for (uint64_t i = 1; i <= depth + 1; i++) m.add_node_id(i);
  if (!dead) m.add_final_node_id(depth + 1);
  for (uint64_t i = 1; i <= depth; i++)
    for (char l : {'a', 'b'}) {
      auto *e = m.add_edge();
      e->set_source_id(i);
      e->set_label((uint32_t)l);
      e->set_target_id(i + 1);
    }
  m.set_root_id(1);
  uint64_t size = vp_u64("size");
  m.set_size(size);
  Dawg *d = from_protobuf(m);
  vp_note("loaded", nullptr, d != nullptr);
  if (d) {
    vp_cover("loaded");
    vp_assert(dead ? size == 0 : depth < 64 && size == 1ull << (depth & 63), "the size of a loaded dictionary is not its number of terms");
    std::string p(depth, 'a');
    p[depth / 2] = 'b';
    vp_assert(d->contains(p) == !dead, "a term is missing from a loaded dictionary");
  } else vp_cover("refused");
  delete d;
}
// one long way: neither deep recursion nor quadratic work
static void long_path() {
  size_t depth = vp_param("depth", 1000);
  llp2::Dictionary m;
  for (uint64_t i = 1; i <= depth + 1; i++) m.add_node_id(i);
  m.add_final_node_id(depth + 1);
  for (uint64_t i = 1; i <= depth; i++) {
    auto *e = m.add_edge();
    e->set_source_id(i);
    e->set_label('a');
    e->set_target_id(i + 1);
  }
  m.set_root_id(1);
  uint64_t size = vp_u64("size");
  m.set_size(size);
  Dawg *d = from_protobuf(m);
  vp_assert((d != nullptr) == (size == 1), "the size of a loaded dictionary is not its number of terms");
  if (d) vp_assert(d->contains(std::string(depth, 'a')), "a term is missing from a loaded dictionary");
  delete d;
  vp_cover("done");
}
// ---- the format itself: an encoder and a decoder of our own ------------------
namespace wire {
static void varint(std::string &s, uint64_t v) {
  for (; v >= 128; v >>= 7) s.push_back((char)(v | 128));
  s.push_back((char)v);
}
static void field(std::string &s, unsigned num, uint64_t v) { varint(s, num * 8); varint(s, v); }
static void bytes(std::string &s, unsigned num, const std::string &v) { varint(s, num * 8 + 2); varint(s, v.size()); s += v; }
struct Reader {
  const std::string &s;
  size_t at, end;
  bool ok = true;
  uint64_t varint() {
    uint64_t v = 0;
    for (unsigned k = 0; k < 70; k += 7) {
      if (at >= end) break;
      unsigned char b = (unsigned char)s[at++];
      if (k < 64) v |= (uint64_t)(b & 127) << k;
      if (b < 128) return v;
    }
    ok = false;
    return 0;
  }
};
struct Edge { uint64_t source = 0, label = 0, target = 0; };
struct Message {
  std::vector<uint64_t> nodes, finals;
  std::vector<Edge> edges;
  uint64_t root = 0, size = 0;
  bool ok = true;
};
static Message parse(const std::string &s) {
  Message m;
  Reader r{s, 0, s.size()};
  auto list = [&](Reader &r, unsigned kind, std::vector<uint64_t> &out) {
    if (kind == 0) { out.push_back(r.varint()); return; }
    uint64_t l = r.varint();
    if (kind != 2 || !r.ok || l > r.end - r.at) { r.ok = false; return; }
    Reader q{r.s, r.at, r.at + (size_t)l};
    while (q.ok && q.at < q.end) out.push_back(q.varint());
    r.ok = q.ok;
    r.at = q.end;
  };
  while (r.ok && r.at < r.end) {
    uint64_t tag = r.varint();
    switch (tag >> 3) {
    case 1: list(r, tag & 7, m.nodes); break;
    case 2: list(r, tag & 7, m.finals); break;
    case 3: {
      uint64_t l = r.varint();
      if ((tag & 7) != 2 || !r.ok || l > r.end - r.at) { r.ok = false; break; }
      Reader q{s, r.at, r.at + (size_t)l};
      Edge e;
      while (q.ok && q.at < q.end) {
        uint64_t t = q.varint(), v = q.varint();
        if (t == 8) e.source = v; else if (t == 16) e.label = v; else if (t == 24) e.target = v; else q.ok = false;
      }
      r.ok = q.ok;
      r.at = q.end;
      m.edges.push_back(e);
      break;
    }
    case 4: m.root = r.varint(); if (tag & 7) r.ok = false; break;
    case 5: m.size = r.varint(); if (tag & 7) r.ok = false; break;
    default: r.ok = false;
    }
  }
  m.ok = r.ok;
  return m;
}
static void spell(const Message &m, uint64_t id, std::string &s, std::vector<std::string> &out, size_t &steps) {
  if (++steps > 5000) return;
  for (uint64_t f : m.finals) if (f == id) { out.push_back(s); break; }
  for (auto &e : m.edges) if (e.source == id) { s.push_back((char)(unsigned char)e.label); spell(m, e.target, s, out, steps); s.pop_back(); }
}
} // namespace wire
// what is written is the documented message
static void written() {
  std::vector<std::string> v = words("w");
  for (auto &w : v) note("term", w);
  SortedDawg *d = build(v);
  std::string b;
  switch (vp_choose("to", 0, vp_param("to", 0))) {
  case 0: { std::stringstream s; vp_assert(serialize_protobuf(d, s), "saving to a good stream reports failure"); b = s.str(); break; }
  case 1: {
    std::string p = vpfs_path("format.pb");
    vp_assert(save(d, p, 2), "saving to a file reports failure");
    vp_assert(vpfs_get(p, b), "there is no file after saving");
    vpfs_remove(p);
    break;
  }
  }
  wire::Message m = wire::parse(b);
  vp_note("bytes", nullptr, b.size());
  vp_assert(m.ok, "what was saved is not a message of the documented format");
  auto known = [&](uint64_t id) { for (uint64_t x : m.nodes) if (x == id) return true; return false; };
  for (size_t i = 0; i < m.nodes.size(); i++) for (size_t j = 0; j < i; j++) vp_assert(m.nodes[i] != m.nodes[j], "a saved file names a node twice");
  for (size_t i = 0; i < m.finals.size(); i++) {
    vp_assert(known(m.finals[i]), "a saved file names a final node that is no node");
    for (size_t j = 0; j < i; j++) vp_assert(m.finals[i] != m.finals[j], "a saved file names a final node twice");
  }
  for (size_t i = 0; i < m.edges.size(); i++) {
    vp_assert(known(m.edges[i].source) && known(m.edges[i].target), "a saved file has an edge from or to no node");
    for (size_t j = 0; j < i; j++)
      vp_assert(m.edges[i].source != m.edges[j].source || (unsigned char)m.edges[i].label != (unsigned char)m.edges[j].label, "a saved file has an edge twice");
  }
  vp_assert(known(m.root), "the root of a saved file is no node");
  vp_assert(m.size == v.size(), "a saved file has a wrong size");
  vp_assert(m.nodes.size() == node_count(d), "a saved file has more or fewer nodes than the dictionary");
  std::vector<std::string> got;
  std::string s;
  size_t steps = 0;
  wire::spell(m, m.root, s, got, steps);
  std::sort(got.begin(), got.end());
  vp_assert(got == v, "the terms of a saved file are not those of the dictionary");
  delete d;
  vp_cover(v.empty() ? "empty" : "terms");
}
// what others may write: any graph, ids, order of the parts and packing
static void foreign() {
  size_t n = vp_param("nodes", 3), letters = vp_param("letters", 2);
  static const unsigned char label[] = {'a', 0xff, 0x00};
  std::vector<wire::Edge> edges;
  std::vector<bool> fin(n), has(n);
  std::vector<uint64_t> id;
  for (size_t i = 0; i < n; i++) id.push_back(i);
  unsigned ids = (unsigned)vp_choose("ids", 0, vp_param("ids", 4));
  for (size_t i = 0; i < n; i++) {
    switch (ids) {
    case 0: id[i] = i + 1; break;
    case 1: id[i] = n - i; break;
    case 2: id[i] = (1ull << 32) * i + 7; break;                 // equal in the lower half
    case 3: id[i] = ~0ull - (i * 5 + 2) % 7; break;
    case 4: id[i] = (i + 1) % n; break;                          // one of them 0
    case 5: id[i] = i; break;                                    // the root is 0: its field is absent
    }
  }
  for (size_t i = 0; i < n; i++) {
    fin[i] = vp_choose("final", 0, 1);
    for (size_t l = 0; l < letters; l++) {
      size_t t = i + vp_choose("to", 0, n - 1 - i);
      if (t == i) continue;
      has[t] = true;
      wire::Edge e;
      e.source = id[i]; e.label = label[l]; e.target = id[t];
      if (ids % 2 && label[l] >= 128) e.label |= 0xffffff00; // as a signed char
      edges.push_back(e);
    }
    if (i && !has[i]) vp_assume(0);
  }
  wire::Message m;
  for (size_t i = 0; i < n; i++) { m.nodes.push_back(id[i]); if (fin[i]) m.finals.push_back(id[i]); }
  m.edges = edges;
  std::vector<std::string> v;
  { std::string s; size_t steps = 0; wire::spell(m, id[0], s, v, steps); std::sort(v.begin(), v.end()); }
  // write it
  unsigned order = (unsigned)vp_choose("order", 0, vp_param("orders", 5));
  std::string b, part[5], packed;
  for (auto &x : {0, 1}) {
    std::vector<uint64_t> l = x ? m.finals : m.nodes;
    if (order == 1 || order == 5) std::reverse(l.begin(), l.end());
    if (l.empty()) continue;
    packed.clear();
    if (order == 2) for (uint64_t i : l) wire::field(part[x], x + 1, i);                     // not packed
    else if (order == 3) { packed.clear(); wire::varint(packed, l[0]); wire::bytes(part[x], x + 1, packed); for (size_t i = 1; i < l.size(); i++) wire::field(part[x], x + 1, l[i]); }
    else { for (uint64_t i : l) wire::varint(packed, i); wire::bytes(part[x], x + 1, packed); }
  }
  std::vector<wire::Edge> es = edges;
  if (order == 1 || order == 5) std::reverse(es.begin(), es.end());
  for (auto &e : es) {
    std::string t;
    if (order == 1) { if (e.target) wire::field(t, 3, e.target); if (e.label) wire::field(t, 2, e.label); if (e.source) wire::field(t, 1, e.source); }
    else if (order == 2) { wire::field(t, 1, e.source); wire::field(t, 2, e.label); wire::field(t, 3, e.target); } // zeros written
    else { if (e.source) wire::field(t, 1, e.source); if (e.label) wire::field(t, 2, e.label); if (e.target) wire::field(t, 3, e.target); }
    wire::bytes(part[2], 3, t);
  }
  if (id[0] || order == 2) wire::field(part[3], 4, id[0]);
  if (v.size() || order == 2) wire::field(part[4], 5, v.size());
  static const char *const orders[] = {"01234", "43210", "20143", "01234", "01234", "34201"};
  for (const char *o = orders[order]; *o; o++) {
    if (order == 4) wire::field(b, 21, 5); // a field that a later version may have
    b += part[*o - '0'];
    if (order == 4) wire::bytes(b, 22, "later");
  }
  note("file", b);
  Dawg *e;
  std::stringstream u(b);
  e = deserialize_protobuf(u);
  vp_assert(e != nullptr, "a file in the documented format cannot be loaded");
  same_terms(e, v, "a file in the documented format loads with other terms");
  vp_assert(node_count(e) == n, "a file in the documented format loads with other nodes");
  delete e;
  vp_cover("loaded");
}
// the same through the message classes, with arbitrary ids and letters
static void foreign_message() {
  size_t n = vp_param("nodes", 3);
  std::vector<uint64_t> id;
  for (size_t i = 0; i < n; i++) {
    id.push_back(vp_u64("id"));
    for (size_t j = 0; j < i; j++) vp_assume(id[i] != id[j]);
  }
  uint32_t label[2] = {(uint32_t)vp_u64("label"), (uint32_t)vp_u64("label")};
  vp_assume((uint8_t)label[0] != (uint8_t)label[1]);
  wire::Message m;
  std::vector<bool> has(n);
  for (size_t i = 0; i < n; i++) {
    m.nodes.push_back(i);
    if (vp_choose("final", 0, 1)) m.finals.push_back(i);
    for (size_t l = 0; l < 2; l++) {
      size_t t = i + vp_choose("to", 0, n - 1 - i);
      if (t == i) continue;
      has[t] = true;
      wire::Edge e;
      e.source = i; e.label = label[l]; e.target = t;
      m.edges.push_back(e);
    }
    if (i && !has[i]) vp_assume(0);
  }
  std::vector<std::string> v;
  { std::string s; size_t steps = 0; wire::spell(m, 0, s, v, steps); }
  llp2::Dictionary p;
  for (uint64_t i : m.nodes) p.add_node_id(id[i]);
  for (uint64_t i : m.finals) p.add_final_node_id(id[i]);
  for (auto &e : m.edges) { auto *x = p.add_edge(); x->set_source_id(id[e.source]); x->set_label((uint32_t)e.label); x->set_target_id(id[e.target]); }
  p.set_root_id(id[0]);
  p.set_size(v.size());
  Dawg *e = from_protobuf(p);
  vp_assert(e != nullptr, "a file in the documented format cannot be loaded");
  vp_assert(e->size() == v.size(), "a file in the documented format loads with other terms");
  for (auto &w : v) vp_assert(e->contains(w), "a file in the documented format loads with other terms");
  std::string q = sym("q", 0, 2);
  bool in = false;
  for (auto &w : v) in = in || ref_same(w, q);
  vp_assert(e->contains(q) == in, "a file in the documented format loads with other terms");
  delete e;
  vp_cover("loaded");
}
// ---- two threads that save and load -------------------------------------------
struct Job { Dawg *d; int what; std::string in, out; std::vector<std::string> got; bool ok = false, same = false; };
static void job(void *p) {
  Job *j = (Job *)p;
  switch (j->what) {
  case 0: {
    std::stringstream s;
    j->ok = serialize_protobuf(j->d, s);
    j->out = s.str();
    break;
  }
  case 1: {
    std::stringstream s(j->in);
    Dawg *e = deserialize_protobuf(s);
    j->ok = e != nullptr;
    if (e) { for (const std::string &w : *e) { j->got.push_back(w); if (j->got.size() > 64) break; } j->same = *e == *j->d; }
    delete e;
    break;
  }
  case 2: {
    Transducer<Algorithm::STANDARD, std::string> t(j->d->root());
    for (const std::string &w : t("a", 2)) j->got.push_back(w);
    j->ok = true;
    break;
  }
  }
}
static void threads() {
  std::vector<std::string> v{"a", "ab", "b", "bb"};
  SortedDawg *d = build(v), *d2 = nullptr;
  std::string text;
  { std::stringstream s; vp_assert(serialize_protobuf(d, s), "saving to a good stream reports failure"); text = s.str(); }
  unsigned pair = (unsigned)vp_choose("jobs", 0, vp_param("jobs", 4));
  static const int what[][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}};
  if (vp_param("apart", 0)) d2 = build(v);
  Job j[2];
  for (int k = 0; k < 2; k++) { j[k].d = k && d2 ? d2 : d; j[k].what = what[pair][k]; j[k].in = text; }
  vp_spawn(job, &j[0]);
  vp_spawn(job, &j[1]);
  vp_join_all();
  for (auto &x : j) {
    vp_assert(x.ok, "saving or loading fails beside another thread");
    if (x.what == 0) {
      std::stringstream s(x.out);
      Dawg *e = deserialize_protobuf(s);
      vp_assert(e != nullptr && *e == *d, "a dictionary saved beside another thread loads differently");
      delete e;
    } else {
      std::sort(x.got.begin(), x.got.end());
      std::vector<std::string> w = v;
      vp_assert(x.got == w, "a dictionary loaded or queried beside another thread has other terms");
      vp_assert(x.what == 2 || x.same, "a dictionary loaded beside another thread differs");
    }
  }
  delete d;
  delete d2;
  vp_cover("joined");
}
void vp_main() {
  switch (vp_param("scn", 0)) {
  case 0: by_stream(); break;
  case 1: by_message(); break;
  case 2: by_path(); break;
  case 3: memory(); break;
  case 4: truncated(); break;
  case 5: missing(); break;
  case 6: any_message(); break;
  case 7: corrupt(); break;
  case 8: any_bytes(); break;
  case 9: full_disk(); break;
  case 10: bad_stream(); break;
  case 11: no_dir(); break;
  case 12: many_paths(); break;
  case 13: long_path(); break;
  case 14: written(); break;
  case 15: foreign(); break;
  case 16: threads(); break;
  case 17: foreign_message(); break;
  }
}
