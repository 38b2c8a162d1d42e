// Symbolic executor: paths, memory, solver decisions, threads, exceptions.
#include "program.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/IR/Instructions.h>

// ---------------------------------------------------------------- options
static struct Opt {
  std::string bc, out = "/tmp/symex.out", entry = "vp_main", crossDir;
  int jobs = 8, layout = 0, hash = 0, preempt = 2, maxViol = 4;
  double maxTime = 600;
  uint64_t maxSteps = 200000000;
  uint64_t rlimit = 60000000;
  int dumpSmt = 0;
  bool uninit = true, trace = false;
  std::map<std::string, uint64_t> params;
  std::vector<std::string> prefixes;
} opt;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Shared {
  std::atomic<int> active, npid, stop;
  std::atomic<uint64_t> paths, killed, forks, steps, queries, sat, unsat, unknown, cacheHits, micros, asserts, assertSolver,
      assertTrivial, unexplored, inconcl, nviol, schedules, maxPc, assertUs, crossN, queryBig;
  std::atomic<uint64_t> keys[512];
  std::atomic<int> nsamp, ndump;
  std::atomic<int> pids[8192];
  std::atomic<int> done[8192];
  double t0, deadline;
  uint8_t cov[1];
};
static Shared *S;
static int mySlot = 0;
static Solver solver;
static std::vector<State *> work;
struct Kill {};
struct ChildStart {};

// ---------------------------------------------------------------- memory
static Chunk *g_dead = nullptr;
void Memory::drop(Chunk *c) {
  if (--c->rc == 0) {
    for (Obj *o : c->o) dropO(o);
    delete c;
  }
}
Chunk *Memory::wchunk(uint32_t ci) {
  Chunk *c = ch[ci];
  if (c->rc == 1) return c;
  Chunk *n = new Chunk();
  n->live = c->live;
  for (uint32_t i = 0; i < CH; i++) {
    n->o[i] = c->o[i];
    if (n->o[i]) n->o[i]->rc++;
  }
  c->rc--;
  return ch[ci] = n;
}
Obj *Memory::wr(uint32_t id) {
  Chunk *c = wchunk(id / CH);
  Obj *&o = c->o[id % CH];
  if (o && o->rc > 1) {
    Obj *n = new Obj(*o);
    n->rc = 1;
    o->rc--;
    o = n;
  }
  return o;
}
uint32_t Memory::add(Obj *o) {
  uint32_t id = next++;
  if (id / CH >= ch.size()) ch.push_back(new Chunk());
  Chunk *c = wchunk(id / CH);
  c->o[id % CH] = o;
  c->live++;
  return id;
}
void Memory::kill(uint32_t id) {
  Chunk *c = wchunk(id / CH);
  dropO(c->o[id % CH]);
  c->o[id % CH] = nullptr;
  if (--c->live == 0 && (id / CH + 1) * CH <= next) {
    if (!g_dead) { g_dead = new Chunk(); g_dead->rc = 1; }
    g_dead->rc++;
    drop(c);
    ch[id / CH] = g_dead;
  }
}
static const uint32_t SLOTM = 0x3fffff;
static const uint64_t SLOT0 = 0x3fffff; // 47-bit addresses, as on x86-64 Linux
static const uint32_t MULT = 0x2545F5;
static uint32_t MULTINV;
static uint64_t addrOf(uint32_t id) {
  uint32_t s = id;
  if (opt.layout == 1) s = SLOTM - id;
  else if (opt.layout == 2) s = (id * MULT) & SLOTM;
  return (uint64_t)(s + 1 + SLOT0) << 24;
}
static bool idOf(uint64_t addr, uint32_t &id, uint32_t &off) {
  uint64_t s = addr >> 24;
  if (s <= SLOT0 || s > SLOT0 + SLOTM + 1ull) return false;
  s -= SLOT0 + 1;
  if (opt.layout == 1) s = SLOTM - s;
  else if (opt.layout == 2) s = ((uint32_t)s * MULTINV) & SLOTM;
  id = s;
  off = addr & 0xffffff;
  return true;
}

// ---------------------------------------------------------------- engine
static State *st;
static Thread *T;
static Frame *F;
static Inst *I;

static inline Ex toEx(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val mk(Ex e) { return isC(e) ? Val{e->val, nullptr} : Val{0, e}; }
static inline Val R(int32_t o) { return o >= 0 ? T->regs[F->base + o] : F->f->consts[~o]; }
static inline void W(int32_t d, Val v) { T->regs[F->base + d] = v; }

static std::set<std::string> g_inc;
static void appendLine(const std::string &file, const std::string &s) {
  int fd = open((opt.out + "/" + file).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { std::string l = s + "\n"; if (write(fd, l.data(), l.size()) < 0) {} close(fd); }
}
static void inconclusive(const std::string &why) {
  S->inconcl++;
  if (g_inc.insert(why).second) appendLine("inconclusive.txt", why);
}
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::vector<std::string> backtrace_() {
  std::vector<std::string> v;
  for (int i = (int)T->fr.size() - 1; i >= 0 && v.size() < 40; i--) {
    Frame &f = T->fr[i];
    if (f.pc < f.f->code.size() && f.f->code[f.pc].src) sourceStack(f.f->code[f.pc].src, v);
    else v.push_back(f.f->name);
  }
  return v;
}
static std::string inputsJson(const Model &m) {
  std::string s = "[";
  uint64_t stp = newStamp();
  for (size_t i = 0; i < st->inputs.size(); i++) {
    Ex e = st->inputs[i];
    std::string nm = e->k == K_VAR ? g_vars[e->val].name : "const";
    s += (i ? "," : "") + std::string("{\"name\":") + js(nm) + ",\"w\":" + std::to_string(e->w) + ",\"value\":" + std::to_string(evalExpr(e, m, stp)) + "}";
  }
  return s + "]";
}
static uint64_t evalM(Ex e);
static void violation(const std::string &kind, const std::string &msg, const Model &m) {
  auto bt = backtrace_();
  std::string where;
  for (auto &b : bt)
    for (auto &p : opt.prefixes) if (where.empty() && b.rfind(p, 0) == 0) where = b;
  if (where.empty() && !bt.empty()) where = bt[0];
  uint64_t h = 1469598103934665603ull;
  for (char c : kind + "|" + (kind == "assert" ? msg : where)) h = (h ^ (uint8_t)c) * 1099511628211ull;
  if (!h) h = 1;
  int reps = 0;
  for (auto &k : S->keys) {
    uint64_t cur = k.load();
    if (cur == h && ++reps >= 3) return; // at most three witnesses per class
    if (cur == 0) { uint64_t z = 0; if (k.compare_exchange_strong(z, h)) break; if (z == h && ++reps >= 3) return; }
  }
  uint64_t n = S->nviol++;
  if (getenv("SYMEX_DEBUG")) {
    fprintf(stderr, "VIOL %s\n", msg.c_str());
    for (Ex e : st->pc) fprintf(stderr, "  pc %d %s\n", (int)evalM(e), show(e, 12).c_str());
    for (auto &p : st->facts) if (!(isC(p.second) && p.first->w == 1)) fprintf(stderr, "  fact %s -> %s\n", show(p.first, 12).c_str(), show(p.second, 12).c_str());
  }
  std::string s = "{\"kind\":" + js(kind) + ",\"msg\":" + js(msg) + ",\"where\":" + js(where) + ",\"inputs\":" + inputsJson(m) + ",\"stack\":[";
  for (size_t i = 0; i < bt.size(); i++) s += (i ? "," : "") + js(bt[i]);
  s += "],\"notes\":[";
  for (size_t i = 0; i < st->notes.size(); i++) s += (i ? "," : "") + js(st->notes[i]);
  s += "],\"constraints\":" + std::to_string(st->pc.size()) + "}";
  std::string fn = opt.out + "/viol-" + std::to_string(n) + ".json";
  FILE *f = fopen((fn + ".tmp").c_str(), "w");
  if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); rename((fn + ".tmp").c_str(), fn.c_str()); }
  if ((int)n + 1 >= opt.maxViol) S->stop = 1;
}
[[noreturn]] static void die(const std::string &kind, const std::string &msg) {
  violation(kind, msg, st->model);
  throw Kill();
}
[[noreturn]] static void unsupported(const std::string &why) {
  auto bt = backtrace_();
  inconclusive("unsupported: " + why + (bt.empty() ? "" : " at " + bt[0]));
  throw Kill();
}

// ---- solver front end: independence slicing + cache ----
typedef std::vector<uint32_t> VarSet;
static std::unordered_map<Ex, std::shared_ptr<VarSet>> g_vs;
static std::unordered_map<Ex, uint64_t> g_visit;
static void collectVars(Ex e, uint64_t stp, VarSet &out) {
  if (e->k == K_CONST || e->stamp == stp) return;
  e->stamp = stp;
  if (e->k == K_VAR) { out.push_back(e->val); return; }
  auto it = g_vs.find(e);
  if (it != g_vs.end()) { for (uint32_t v : *it->second) { Ex ve = g_varExprs[v]; if (ve->stamp != stp) { ve->stamp = stp; out.push_back(v); } } return; }
  for (Ex x : {e->a, e->b, e->c}) if (x) collectVars(x, stp, out);
}
static const VarSet &varsOf(Ex e) {
  auto it = g_vs.find(e);
  if (it != g_vs.end()) return *it->second;
  auto v = std::make_shared<VarSet>();
  collectVars(e, newStamp(), *v);
  std::sort(v->begin(), v->end());
  return *(g_vs[e] = v);
}
struct CacheEnt { int8_t r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 7; for (uint32_t x : v) { h ^= x; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> g_cache;

static std::vector<Ex> slice(const std::vector<Ex> &pc, Ex extra) {
  std::vector<Ex> r;
  VarSet need = varsOf(extra);
  std::vector<char> used(pc.size(), 0);
  static std::vector<uint64_t> mark;
  static uint64_t ms = 0;
  ms++;
  if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 64, 0);
  for (uint32_t v : need) mark[v] = ms;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!used[i]) {
        const VarSet &vs = varsOf(pc[i]);
        bool hit = false;
        for (uint32_t v : vs) if (mark[v] == ms) { hit = true; break; }
        if (hit) {
          used[i] = 1;
          r.push_back(pc[i]);
          for (uint32_t v : vs) if (mark[v] != ms) { mark[v] = ms; ch = true; }
        }
      }
  }
  return r;
}
static int query(Ex extra, Model *mout, bool isAssert = false) {
  std::vector<Ex> sl = slice(st->pc, extra);
  std::vector<uint32_t> key;
  for (Ex e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.push_back(extra->id);
  auto it = g_cache.find(key);
  CacheEnt *ce;
  if (it != g_cache.end()) { S->cacheHits++; ce = &it->second; }
  else {
    Model m;
    int r = solver.check(sl, extra, &m);
    if (opt.dumpSmt && S->ndump < opt.dumpSmt && (isAssert || S->queries % 16 == 0)) {
      int k = S->ndump++;
      if (k < opt.dumpSmt) {
        std::string fn = opt.out + "/q" + std::to_string(k) + ".smt2";
        FILE *f = fopen(fn.c_str(), "w");
        std::string t = (r == 1 ? "; answer sat\n" : r == 0 ? "; answer unsat\n" : "; answer unknown\n") + solver.dump(sl, extra);
        if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); }
      }
    }
    CacheEnt e;
    e.r = r;
    if (r == 1) {
      std::set<uint32_t> vs;
      for (Ex x : sl) for (uint32_t v : varsOf(x)) vs.insert(v);
      for (uint32_t v : varsOf(extra)) vs.insert(v);
      for (uint32_t v : vs) e.m.push_back({v, v < m.size() ? m[v] : 0});
    }
    if (g_cache.size() > 2000000) g_cache.clear();
    ce = &(g_cache[key] = e);
  }
  if (ce->r == 1 && mout) {
    *mout = st->model;
    if (mout->size() < g_vars.size()) mout->resize(g_vars.size(), 0);
    for (auto &p : ce->m) (*mout)[p.first] = p.second;
  }
  if (ce->r < 0) inconclusive("solver gave no answer within its resource limit");
  return ce->r;
}
static void addFact(State *s, Ex c, bool val) {
  std::function<void(Ex, bool, int)> rec = [&](Ex e, bool v, int d) {
    if (isC(e)) return;
    s->facts[e] = mkConst(1, v);
    Ex n = mkNot(e);
    if (!isC(n)) s->facts[n] = mkConst(1, !v);
    if (d > 8) return;
    if (e->k == K_EQ && e->a->w == 1 && isC(e->b)) { rec(e->a, !v, d + 1); return; }
    if (v && e->k == K_EQ) {
      if (isC(e->b)) s->facts[e->a] = e->b;
      else if (e->a->k == K_VAR && e->b->k == K_VAR) {
        if (e->a->id < e->b->id) s->facts[e->b] = e->a; else s->facts[e->a] = e->b;
      }
    }
    if (v && e->k == K_AND) { rec(e->a, true, d + 1); rec(e->b, true, d + 1); }
    if (!v && e->k == K_OR) { rec(e->a, false, d + 1); rec(e->b, false, d + 1); }
  };
  rec(c, val, 0);
  s->factsStamp = newStamp();
}
static Ex simp(Ex e) {
  if (isC(e) || st->facts.empty()) return e;
  for (int i = 0; i < 3; i++) {
    Ex r = substExpr(e, st->facts, st->factsStamp);
    if (r == e || isC(r)) return r;
    e = r;
  }
  return e;
}
static void assume(State *s, Ex c) { // c must be consistent with s->model
  s->pc.push_back(c);
  if (s->pc.size() > S->maxPc) S->maxPc = s->pc.size();
}
static uint64_t evalM(Ex e) {
  if (st->model.size() < g_vars.size()) st->model.resize(g_vars.size(), 0);
  return evalExpr(e, st->model, newStamp());
}
static void checkUndef(Ex c) {
  if (!opt.uninit) return;
  for (uint32_t v : varsOf(c))
    if (g_vars[v].name.compare(0, 6, "undef#") == 0) die("uninit", "control flow depends on an uninitialised value");
}
// truth value of c on this path; forks the other side when it is feasible
static bool decide(Ex c0) {
  if (isC(c0)) return c0->val;
  Ex c = simp(c0);
  if (isC(c)) return c->val;
  checkUndef(c);
  bool v = evalM(c);
  Ex other = v ? mkNot(c) : c;
  Model m;
  int r = query(other, &m);
  if (r == 1) {
    State *n = new State(*st);
    assume(n, other);
    addFact(n, c, !v);
    if (c0 != c) addFact(n, c0, !v);
    n->model = m;
    work.push_back(n);
    S->forks++;
    st->forks++;
    assume(st, v ? c : mkNot(c));
  }
  addFact(st, c, v);
  if (c0 != c) addFact(st, c0, v);
  // a word known to be small is split into its values: small bounds stay cheap,
  // everything above them remains one symbolic case
  if (c->k == K_ULT && c->a->w == 64) {
    Ex var = nullptr;
    if (v && c->a->k == K_VAR && isC(c->b) && c->b->val <= 32) var = c->a;
    if (!v && c->b->k == K_VAR && isC(c->a) && c->a->val < 32) var = c->b;
    while (var) {
      Ex e = simp(var);
      if (isC(e) || decide(mkEq(e, mkConst(64, evalM(e))))) break;
    }
  }
  return v;
}
static uint64_t concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  Ex e = simp(v.e);
  if (isC(e)) return e->val;
  uint64_t k = evalM(e);
  decide(mkEq(e, mkConst(w, k)));
  return k;
}
static Val simpV(Val v) {
  if (!v.e) return v;
  return mk(simp(v.e));
}

// ---- memory access ----
static bool threaded() { return st->th.size() > 1; }
static void race(uint32_t id, uint32_t off, uint32_t n, bool write) {
  Obj *o = st->mem.wr(id);
  if (o->kind == OK_CONST) return;
  if (o->shadow.empty()) o->shadow.resize(o->size);
  uint32_t t = st->cur;
  for (uint32_t i = off; i < off + n; i++) {
    Shadow &s = o->shadow[i];
    bool bad = s.wt != 255 && s.wt != t && s.wc > T->clk[s.wt];
    if (write)
      for (uint32_t u = 0; u < 4; u++) if (u != t && s.rc[u] > T->clk[u]) bad = true;
    if (bad) die("race", std::string("data race: unsynchronised ") + (write ? "write" : "read") + " of memory another thread " + (s.wt != 255 && s.wt != t ? "writes" : "reads"));
    if (write) { s.wt = t; s.wc = T->clk[t]; }
    else s.rc[t] = T->clk[t];
  }
}
static const char *accName(bool w) { return w ? "write" : "read"; }
static Obj *resolve(Val a, uint32_t n, bool write, uint32_t &id, uint32_t &off) {
  uint64_t addr = concretize(a, 64);
  if (!idOf(addr, id, off)) die("memory", std::string("invalid ") + accName(write) + (addr < (1 << 24) ? " through a null pointer" : " through a wild pointer"));
  Obj *o = st->mem.get(id);
  if (!o) {
    if (id < st->mem.next) die("memory", std::string(accName(write)) + " after free (or after the object's lifetime)");
    die("memory", std::string("invalid ") + accName(write) + " through a wild pointer");
  }
  if ((uint64_t)off + n > o->size) die("memory", std::string("out-of-bounds ") + accName(write) + " of " + std::to_string(n) + " byte(s) at offset " + std::to_string((int32_t)(off << 8) >> 8) + " of an object of " + std::to_string(o->size));
  if (write && o->kind == OK_CONST) die("memory", "write to constant memory");
  if (threaded() && n) { race(id, off, n, write); o = st->mem.get(id); }
  return o;
}
static Val readBytes(uint32_t id, uint32_t off, unsigned w) {
  Obj *o = st->mem.get(id);
  uint32_t n = (w + 7) / 8;
  bool anyU = false, anyS = false;
  if (!o->undef.empty()) for (uint32_t i = 0; i < n; i++) anyU |= o->undef[off + i];
  if (anyU) {
    o = st->mem.wr(id);
    if (o->sym.empty()) o->sym.resize(o->size);
    bool all = true;
    for (uint32_t i = 0; i < n; i++) all &= o->undef[off + i];
    if (all && n > 1) {
      Ex v = mkVar("undef#" + std::to_string(st->nundef++), n * 8);
      for (uint32_t i = 0; i < n; i++) { o->sym[off + i] = {v, (uint8_t)i}; o->undef[off + i] = 0; }
    } else
      for (uint32_t i = 0; i < n; i++)
        if (o->undef[off + i]) {
          o->sym[off + i] = {mkVar("undef#" + std::to_string(st->nundef++), 8), 0};
          o->undef[off + i] = 0;
        }
  }
  if (!o->sym.empty()) for (uint32_t i = 0; i < n; i++) if (o->sym[off + i].e) { anyS = true; break; }
  if (!anyS) {
    uint64_t v = 0;
    memcpy(&v, &o->b[off], n);
    return {v & maskw(w), nullptr};
  }
  const SymB *s = &o->sym[off];
  if (s[0].e && s[0].idx == 0 && s[0].e->w == n * 8) {
    bool same = true;
    for (uint32_t i = 1; i < n; i++) if (s[i].e != s[0].e || s[i].idx != i) { same = false; break; }
    if (same) { Ex e = s[0].e; return mk(w == n * 8 ? e : mkExtract(e, 0, w)); }
  }
  Ex acc = nullptr;
  for (uint32_t i = 0; i < n; i++) {
    Ex b = s[i].e ? mkExtract(s[i].e, s[i].idx * 8, 8) : mkConst(8, o->b[off + i]);
    acc = acc ? mkConcat(b, acc) : b;
  }
  return mk(w == n * 8 ? acc : mkExtract(acc, 0, w));
}
static void writeBytes(uint32_t id, uint32_t off, unsigned w, Val v) {
  Obj *o = st->mem.wr(id);
  uint32_t n = (w + 7) / 8;
  if (!o->undef.empty()) memset(&o->undef[off], 0, n);
  if (!v.e) {
    uint64_t x = v.c & maskw(w);
    memcpy(&o->b[off], &x, n);
    if (!o->sym.empty()) for (uint32_t i = 0; i < n; i++) o->sym[off + i] = SymB();
    return;
  }
  Ex e = v.e;
  if (e->w != n * 8) e = mkZext(e, n * 8);
  if (o->sym.empty()) o->sym.resize(o->size);
  for (uint32_t i = 0; i < n; i++) o->sym[off + i] = {e, (uint8_t)i};
}
static Val load(Val a, unsigned w) {
  uint32_t id, off;
  resolve(a, (w + 7) / 8, false, id, off);
  return readBytes(id, off, w);
}
static void store(Val a, unsigned w, Val v) {
  uint32_t id, off;
  resolve(a, (w + 7) / 8, true, id, off);
  writeBytes(id, off, w, v);
}
static uint64_t newObj(uint64_t size, ObjKind k, bool zero) {
  Obj *o = new Obj();
  o->size = size;
  o->kind = k;
  o->owner = st->cur;
  o->b.assign(size, 0);
  if (!zero && size) o->undef.assign(size, 1);
  uint32_t id = st->mem.add(o);
  if (id >= SLOTM - 8) unsupported("too many objects");
  if (k >= OK_NEW) st->liveHeap++;
  if (threaded() && size) {
    o->shadow.resize(size);
  }
  return addrOf(id);
}
static std::string readStr(uint64_t p, size_t max = 400) {
  std::string s;
  uint32_t id, off;
  if (!idOf(p, id, off)) return s;
  Obj *o = st->mem.get(id);
  while (o && off < o->size && o->b[off] && s.size() < max) s += (char)o->b[off++];
  return s;
}
static void copyMem(Val d, Val s, Val nV) {
  uint64_t n = concretize(nV, 64);
  if (!n) return;
  uint32_t di, doff, si, soff;
  if (n > 0xffffff) die("memory", "out-of-bounds copy of " + std::to_string(n) + " bytes");
  resolve(s, n, false, si, soff);
  resolve(d, n, true, di, doff);
  Obj *so = st->mem.get(si);
  so->rc++; // keep the source while the destination is written
  Obj *o = st->mem.wr(di);
  if (di == si) {
    // (the source reference forces a private copy for the destination)
  }
  memcpy(&o->b[doff], &so->b[soff], n);
  if (!so->sym.empty() || !o->sym.empty()) {
    if (o->sym.empty()) {
      bool any = false;
      for (uint64_t i = 0; i < n; i++) if (so->sym[soff + i].e) { any = true; break; }
      if (any) o->sym.resize(o->size);
    }
    if (!o->sym.empty())
      for (uint64_t i = 0; i < n; i++) o->sym[doff + i] = so->sym.empty() ? SymB() : so->sym[soff + i];
  }
  if (!so->undef.empty() || !o->undef.empty()) {
    if (o->undef.empty()) {
      bool any = false;
      for (uint64_t i = 0; i < n; i++) if (so->undef[soff + i]) { any = true; break; }
      if (any) o->undef.assign(o->size, 0);
    }
    if (!o->undef.empty())
      for (uint64_t i = 0; i < n; i++) o->undef[doff + i] = so->undef.empty() ? 0 : so->undef[soff + i];
  }
  Memory::dropO(so);
}
static void setMem(Val d, Val v, Val nV) {
  uint64_t n = concretize(nV, 64);
  if (!n) return;
  uint32_t id, off;
  if (n > 0xffffff) die("memory", "out-of-bounds memset of " + std::to_string(n) + " bytes");
  resolve(d, n, true, id, off);
  for (uint64_t i = 0; i < n; i++) writeBytes(id, off + i, 8, v);
}
static void doFree(Val a, ObjKind k) {
  uint64_t addr = concretize(a, 64);
  if (!addr) return;
  uint32_t id, off;
  if (!idOf(addr, id, off) || id >= st->mem.next) die("memory", "free of a wild pointer");
  Obj *o = st->mem.get(id);
  if (!o) die("memory", "double free");
  if (off != 0 || o->kind < OK_NEW) die("memory", "free of a pointer that was not allocated");
  if (o->kind != k) die("memory", "allocation function and deallocation function do not match");
  if (threaded() && o->size) race(id, 0, o->size, true);
  st->mem.kill(id);
  st->liveHeap--;
}

// ---- control ----
static void refresh() {
  T = &st->th[st->cur];
  F = &T->fr.back();
}
static void pushCall(Fn *fn, const std::vector<Val> &flat, int32_t retDst, int32_t callIdx) {
  if (T->fr.size() > 3000) die("memory", "stack overflow (unbounded recursion)");
  Frame nf;
  nf.f = fn;
  nf.pc = 0;
  nf.base = T->regs.size();
  nf.allocaBase = T->allocas.size();
  nf.retDst = retDst;
  nf.callIdx = callIdx;
  T->regs.resize(nf.base + fn->nslots);
  size_t k = 0;
  for (size_t i = 0; i < fn->argSlots.size(); i++)
    for (uint32_t j = 0; j < fn->argLeaves[i] && k < flat.size(); j++) T->regs[nf.base + fn->argSlots[i] + j] = flat[k++];
  T->fr.push_back(nf);
  F = &T->fr.back();
  S->cov[fn->covBase] = 1;
}
static void popFrame() {
  for (size_t i = F->allocaBase; i < T->allocas.size(); i++) st->mem.kill(T->allocas[i]);
  T->allocas.resize(F->allocaBase);
  T->regs.resize(F->base);
  T->fr.pop_back();
  if (!T->fr.empty()) F = &T->fr.back();
}
static void takeEdge(uint32_t ei) {
  Edge &e = F->f->edges[ei];
  S->cov[F->f->covBase + e.block] = 1;
  if (e.moves.size() == 1) W(e.moves[0].first, R(e.moves[0].second));
  else if (!e.moves.empty()) {
    Val tmp[64];
    std::vector<Val> big;
    Val *p = tmp;
    if (e.moves.size() > 64) { big.resize(e.moves.size()); p = big.data(); }
    for (size_t i = 0; i < e.moves.size(); i++) p[i] = R(e.moves[i].second);
    for (size_t i = 0; i < e.moves.size(); i++) W(e.moves[i].first, p[i]);
  }
  F->pc = e.target;
}
// after a call instruction has produced its value(s)
static void afterCall(CallInfo &ci) {
  if (ci.invoke) takeEdge(ci.normal);
  else F->pc++;
}

// ---- exceptions ----
static std::string tiName(uint64_t ti) {
  for (auto &p : P.gaddr) if (p.second == ti) return p.first;
  return "?";
}
static std::map<std::string, std::string> stdBase = {
  {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
  {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
  {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
  {"_ZTISt12system_error", "_ZTISt13runtime_error"},
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
  {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
static std::vector<std::string> g_excNames;
static uint64_t excName(const std::string &n) {
  for (size_t i = 0; i < g_excNames.size(); i++) if (g_excNames[i] == n) return i + 1;
  g_excNames.push_back(n);
  return g_excNames.size();
}
static bool derives(const std::string &n, const std::string &base, int64_t *off = nullptr, int depth = 0) {
  if (n == base) return true;
  if (depth > 20) return false;
  auto it = P.tiBase.find(n);
  if (it != P.tiBase.end()) {
    for (auto &b : it->second) {
      int64_t o = 0;
      if (!derives(b.first, base, &o, depth + 1)) continue;
      if (b.second == INT64_MIN) { if (off) unsupported("virtual base class"); return true; }
      if (off) *off = o + b.second;
      return true;
    }
    return false;
  }
  auto j = stdBase.find(n);
  return j != stdBase.end() && derives(j->second, base, off, depth + 1);
}
// unwind from the current frame; the frames above hold no handler
static void unwind(uint64_t exc) {
  std::string tn = g_excNames[st->exc[exc].first - 1];
  while (true) {
    int32_t ci = F->callIdx;
    if (T->fr.size() <= 1) {
      die("exception", "uncaught exception of type " + demangle(tn));
    }
    popFrame();
    if (ci < 0) continue;
    CallInfo &c = F->f->calls[ci];
    if (!c.invoke) continue;
    Edge &e = F->f->edges[c.unwind];
    // the landing pad is the first instruction of the unwind block
    Inst &lp = F->f->code[e.target];
    if (lp.op != O_LPAD) unsupported("unexpected unwind destination");
    LpadInfo &li = F->f->lpads[lp.aux];
    uint64_t sel = 0;
    bool take = li.cleanup;
    for (size_t k = 0; k < li.clauses.size(); k++) {
      if (li.isFilter[k]) { take = true; sel = (uint64_t)-1; break; }
      uint64_t ti = R(li.clauses[k]).c;
      if (ti == 0) { take = true; sel = excName("catch-all"); break; }
      std::string n = tiName(ti);
      if (derives(tn, n)) { take = true; sel = excName(n); break; }
    }
    if (!take) continue;
    T->curExc = exc;
    T->curSel = sel;
    takeEdge(c.unwind);
    return;
  }
}
static void throwNamed(const std::string &ti) { // for the current call instruction
  uint64_t ex = newObj(64, OK_MALLOC, true);
  st->exc[ex] = {excName(ti), 1};
  // the call instruction itself may be an invoke of the current frame
  CallInfo &c = F->f->calls[I->aux];
  (void)c;
  // push a dummy frame so that unwind() starts at this call
  Frame d = *F;
  d.base = T->regs.size();
  d.allocaBase = T->allocas.size();
  d.callIdx = I->aux;
  T->fr.push_back(d);
  F = &T->fr.back();
  unwind(ex);
}

// ---- threads ----
static void joinClk(uint32_t *a, const uint32_t *b) { for (int i = 0; i < 4; i++) a[i] = std::max(a[i], b[i]); }
// choose the next thread to run; returns false when another thread was chosen
static std::vector<uint32_t> runnable() {
  std::vector<uint32_t> r;
  for (uint32_t i = 0; i < st->th.size(); i++) if (st->th[i].status == 0) r.push_back(i);
  return r;
}
static void pickThread(bool curCan) {
  auto r = runnable();
  if (r.empty()) die("deadlock", "all threads are blocked");
  uint32_t pick = 0;
  if (r.size() > 1) {
    if (curCan && st->preempt >= (uint32_t)opt.preempt) {
      for (uint32_t i = 0; i < r.size(); i++) if (r[i] == st->cur) pick = i;
    } else {
      Ex v = mkVar("sched#" + std::to_string(st->nsched), 8);
      Ex lim = mkUlt(v, mkConst(8, r.size()));
      if (!evalM(lim) || !isC(simp(lim))) {
        if (!evalM(lim)) st->model[v->val] = 0;
        assume(st, lim);
        addFact(st, lim, true);
      }
      pick = concretize({0, v}, 8);
      st->nsched++;
      st->notes.push_back("schedule " + std::to_string(st->nsched) + ": thread " + std::to_string(r[pick]));
      if (curCan && r[pick] != st->cur) st->preempt++;
      S->schedules++;
    }
  }
  st->cur = r[pick];
  refresh();
}

// ---------------------------------------------------------------- builtins
enum {
  B_NEW = 1, B_NEWARR, B_MALLOC, B_CALLOC, B_DEL, B_DELARR, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_MEMCHR,
  B_ABORT, B_TERMINATE, B_ASSERTFAIL, B_THROWSTD, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW,
  B_TYPEID, B_GUARD_ACQ, B_GUARD_REL, B_RET0, B_RETARG0, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP,
  B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_USUBSAT, B_UADDSAT, B_EXPECT, B_OBJSIZE, B_TRAP, B_ISCONST,
  B_STACKSAVE, B_NOOP, B_LOCK, B_UNLOCK, B_RDLOCK, B_WRLOCK, B_TRYLOCK, B_TRYRD, B_TRYWR, B_PTHREADSELF, B_MURMUR, B_HASHBYTES,
  B_THREADLOCAL, B_PTRMASK, B_GUARD_ABORT, B_DYNCAST, B_REALLOC, B_VASTART, B_VACOPY, B_CEIL, B_FLOOR, B_UBTRAP,
  V_U8, V_U64, V_CHOOSE, V_ASSUME, V_ASSERT, V_COVER, V_ITE, V_LIVE, V_SPAWN, V_JOIN, V_PARAM, V_NOTE, V_HASHMODE, V_SYM, V_CONC,
  V_MARK
};
static std::map<std::string, int> bt;
static void initBuiltins() {
  auto add = [](int b, std::initializer_list<const char *> l) { for (auto n : l) bt[n] = b; };
  add(B_NEW, {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"});
  add(B_NEWARR, {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"});
  add(B_MALLOC, {"malloc"});
  add(B_CALLOC, {"calloc"});
  add(B_DEL, {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"});
  add(B_DELARR, {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"});
  add(B_FREE, {"free"});
  add(B_MEMCPY, {"memcpy", "memmove"});
  add(B_MEMSET, {"memset"});
  add(B_MEMCMP, {"memcmp"});
  add(B_BCMP, {"bcmp"});
  add(B_STRLEN, {"strlen"});
  add(B_MEMCHR, {"memchr"});
  add(B_ABORT, {"abort", "_exit", "exit"});
  add(B_TERMINATE, {"_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "_ZSt10unexpectedv"});
  add(B_ASSERTFAIL, {"__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"});
  add(B_CXA_ALLOC, {"__cxa_allocate_exception"});
  add(B_CXA_FREE, {"__cxa_free_exception"});
  add(B_CXA_THROW, {"__cxa_throw"});
  add(B_CXA_BEGIN, {"__cxa_begin_catch"});
  add(B_CXA_END, {"__cxa_end_catch"});
  add(B_CXA_RETHROW, {"__cxa_rethrow"});
  add(B_GUARD_ACQ, {"__cxa_guard_acquire"});
  add(B_GUARD_REL, {"__cxa_guard_release"});
  add(B_GUARD_ABORT, {"__cxa_guard_abort"});
  add(B_DYNCAST, {"__dynamic_cast"});
  add(B_REALLOC, {"realloc"});
  add(B_RET0, {"__cxa_atexit", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy",
               "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv", "__cxa_thread_atexit",
               "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "sched_yield",
               "printf", "fprintf", "vprintf", "vfprintf", "puts", "putchar", "putc", "fputc", "fputs", "fflush", "fwrite", "perror"});
  add(B_LOCK, {"pthread_mutex_lock"});
  add(B_UNLOCK, {"pthread_mutex_unlock", "pthread_rwlock_unlock"});
  add(B_RDLOCK, {"pthread_rwlock_rdlock"});
  add(B_WRLOCK, {"pthread_rwlock_wrlock"});
  add(B_TRYLOCK, {"pthread_mutex_trylock"});
  add(B_TRYRD, {"pthread_rwlock_tryrdlock"});
  add(B_TRYWR, {"pthread_rwlock_trywrlock"});
  add(B_PTHREADSELF, {"pthread_self"});
  add(B_MURMUR, {"_Z13MurmurHash64APKvim"});
  add(B_HASHBYTES, {"_ZSt11_Hash_bytesPKvmm"});
  add(V_U8, {"vp_u8"}); add(V_U64, {"vp_u64"}); add(V_CHOOSE, {"vp_choose"}); add(V_ASSUME, {"vp_assume"});
  add(V_ASSERT, {"vp_assert"}); add(V_COVER, {"vp_cover"}); add(V_ITE, {"vp_ite"}); add(V_LIVE, {"vp_live"});
  add(V_SPAWN, {"vp_spawn"}); add(V_JOIN, {"vp_join_all"}); add(V_PARAM, {"vp_param"}); add(V_NOTE, {"vp_note"});
  add(V_HASHMODE, {"vp_hash_mode"}); add(V_SYM, {"vp_is_symbolic"}); add(V_CONC, {"vp_concrete"}); add(V_MARK, {"vp_mark"});
}
int builtinId(const std::string &n) {
  if (bt.empty()) initBuiltins();
  auto it = bt.find(n);
  if (it != bt.end()) return it->second;
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("_ZSt") && n.find("__throw_") != std::string::npos) return B_THROWSTD;
  if (pre("llvm.memcpy.") || pre("llvm.memmove.")) return B_MEMCPY;
  if (pre("llvm.memset.")) return B_MEMSET;
  if (pre("llvm.umax.")) return B_UMAX;
  if (pre("llvm.umin.")) return B_UMIN;
  if (pre("llvm.smax.")) return B_SMAX;
  if (pre("llvm.smin.")) return B_SMIN;
  if (pre("llvm.abs.")) return B_ABS;
  if (pre("llvm.ctpop.")) return B_CTPOP;
  if (pre("llvm.ctlz.")) return B_CTLZ;
  if (pre("llvm.cttz.")) return B_CTTZ;
  if (pre("llvm.bswap.")) return B_BSWAP;
  if (pre("llvm.fshl.")) return B_FSHL;
  if (pre("llvm.fshr.")) return B_FSHR;
  if (pre("llvm.uadd.with.overflow")) return B_UADDO;
  if (pre("llvm.usub.with.overflow")) return B_USUBO;
  if (pre("llvm.umul.with.overflow")) return B_UMULO;
  if (pre("llvm.sadd.with.overflow")) return B_SADDO;
  if (pre("llvm.ssub.with.overflow")) return B_SSUBO;
  if (pre("llvm.smul.with.overflow")) return B_SMULO;
  if (pre("llvm.usub.sat")) return B_USUBSAT;
  if (pre("llvm.uadd.sat")) return B_UADDSAT;
  if (pre("llvm.expect")) return B_EXPECT;
  if (pre("llvm.objectsize")) return B_OBJSIZE;
  if (pre("llvm.ubsantrap")) return B_UBTRAP;
  if (pre("llvm.trap") || pre("llvm.debugtrap")) return B_TRAP;
  if (pre("llvm.is.constant")) return B_ISCONST;
  if (pre("llvm.eh.typeid.for")) return B_TYPEID;
  if (pre("llvm.stacksave")) return B_STACKSAVE;
  if (pre("llvm.stackrestore") || pre("llvm.va_end")) return B_NOOP;
  if (pre("llvm.va_start")) return B_VASTART;
  if (pre("llvm.va_copy")) return B_VACOPY;
  if (n == "llvm.ceil.f64" || n == "ceil") return B_CEIL;
  if (n == "llvm.floor.f64" || n == "floor") return B_FLOOR;
  if (pre("llvm.threadlocal.address")) return B_THREADLOCAL;
  return -1;
}

static Ex byteAt(uint32_t id, uint32_t off) { return toEx(readBytes(id, off, 8), 8); }
static Val hashCall(Val p, uint64_t len, uint64_t seed) {
  HashEnt h;
  h.seed = seed;
  if (len) {
    uint32_t id, off;
    resolve(p, len, false, id, off);
    for (uint64_t i = 0; i < len; i++) h.bytes.push_back(byteAt(id, off + i));
  }
  if (st->hashMode == 1) return {7, nullptr};
  for (size_t k = 0; k < st->hashlog.size(); k++) {
    HashEnt &e = st->hashlog[k];
    if (e.seed != seed || e.bytes.size() != len) continue;
    Ex eq = mkConst(1, 1);
    for (uint64_t i = 0; i < len; i++) eq = mkBin(K_AND, eq, mkEq(h.bytes[i], e.bytes[i]));
    if (decide(eq)) return {st->hashlog[k].out, nullptr};
  }
  h.out = (uint64_t)(st->hashlog.size() + 1) * 0x9E3779B97F4A7C15ull;
  st->hashlog.push_back(h);
  return {h.out, nullptr};
}
static Ex freshInput(const char *nm, unsigned w) {
  Ex v = mkVar(std::string(nm) + (w == 8 ? "." : "#") + std::to_string(st->nvars), w);
  if (st->model.size() <= v->val) st->model.resize(g_vars.size(), 0);
  return v;
}
static void doAssert(Ex c0, const std::string &msg) {
  S->asserts++;
  Ex c = simp(c0);
  if (isC(c)) {
    if (c->val) { S->assertTrivial++; return; }
    violation("assert", msg, st->model);
    throw Kill();
  }
  S->assertSolver++;
  Model m;
  double t = now();
  int r = query(mkNot(c), &m, true);
  S->assertUs += (uint64_t)((now() - t) * 1e6);
  if (r == 1) {
    violation("assert", msg, m);
    // go on with the part of the path on which it holds, if any
    if (!evalM(c)) {
      Model m2;
      if (query(c, &m2) != 1) throw Kill();
      st->model = m2;
    }
    assume(st, c);
  }
  addFact(st, c, true);
}

static void callFn(Fn *fn, CallInfo &ci);
static Val atomicLoad(Val a, unsigned w);
static void atomicStore(Val a, unsigned w, Val v);
static bool lockFree(const LockSt &l, int kind, uint32_t t) {
  if (kind == 0) { // exclusive
    if (l.writer != 255) return false;
    for (int i = 0; i < 4; i++) if (l.readers[i]) return false;
    return true;
  }
  return l.writer == 255;
}
static void builtin(int b, CallInfo &ci) {
  auto A = [&](unsigned i) -> Val { return R(ci.args[i][0]); };
  auto E = [&](unsigned i) -> Ex { return toEx(A(i), ci.argw[i]); };
  int32_t d = I->dst;
  auto ret = [&](Val v) { if (d >= 0 && ci.nret) W(d, v); };
  auto ov = [&](Kind k, bool sgn) {
    unsigned w = ci.argw[0];
    Val x = A(0), y = A(1);
    if (!x.e && !y.e) {
      __int128 r, a, bb;
      if (sgn) { a = sextw(x.c, w); bb = sextw(y.c, w); }
      else { a = (unsigned __int128)(x.c & maskw(w)); bb = (unsigned __int128)(y.c & maskw(w)); }
      bool o;
      if (k == K_ADD) r = a + bb; else if (k == K_SUB) r = a - bb; else r = a * bb;
      if (!sgn && k == K_MUL) { unsigned __int128 u = (unsigned __int128)a * (unsigned __int128)bb; o = (u >> w) != 0; r = (__int128)u; }
      else if (sgn) o = r != (__int128)sextw((uint64_t)r, w);
      else o = r < 0 || (unsigned __int128)r > (unsigned __int128)maskw(w);
      W(d, {(uint64_t)r & maskw(w), nullptr});
      W(d + 1, {o, nullptr});
      return;
    }
    Ex a = E(0), c = E(1), r = mkBin(k, a, c), o;
    Ex z = mkConst(w, 0);
    if (k == K_ADD && !sgn) o = mkUlt(r, a);
    else if (k == K_SUB && !sgn) o = mkUlt(a, c);
    else if (k == K_ADD) o = mkBin(K_AND, mkNot(mkBin(K_XOR, mkSlt(a, z), mkSlt(c, z))), mkBin(K_XOR, mkSlt(r, z), mkSlt(a, z)));
    else if (k == K_SUB) o = mkBin(K_AND, mkBin(K_XOR, mkSlt(a, z), mkSlt(c, z)), mkBin(K_XOR, mkSlt(r, z), mkSlt(a, z)));
    else if (w <= 32) {
      Ex wa = sgn ? mkSext(a, 2 * w) : mkZext(a, 2 * w), wb = sgn ? mkSext(c, 2 * w) : mkZext(c, 2 * w);
      Ex p = mkBin(K_MUL, wa, wb);
      o = mkNot(mkEq(p, sgn ? mkSext(r, 2 * w) : mkZext(r, 2 * w)));
    } else if (!sgn && (isC(a) || isC(c))) {
      if (isC(a)) std::swap(a, c);
      o = c->val ? mkUlt(mkConst(w, maskw(w) / c->val), a) : mkConst(1, 0);
    } else if (!sgn) {
      o = mkBin(K_AND, mkNot(mkEq(a, z)), mkNot(mkEq(mkBin(K_UDIV, r, a), c)));
    } else unsupported("symbolic signed 64-bit multiply overflow");
    W(d, mk(r));
    W(d + 1, mk(o));
  };
  switch (b) {
  case B_NEW: case B_NEWARR: case B_MALLOC: case B_CALLOC: {
    uint64_t n = concretize(A(0), 64);
    if (b == B_CALLOC) n *= concretize(A(1), 64);
    if (n >= 0xfffff0) {
      if (n < (1ull << 40)) unsupported("allocation of " + std::to_string(n) + " bytes");
      throwNamed("_ZTISt9bad_alloc");
      return;
    }
    ret({newObj(n, b == B_NEW ? OK_NEW : b == B_NEWARR ? OK_NEWARR : OK_MALLOC, b == B_CALLOC), nullptr});
    break;
  }
  case B_DEL: doFree(A(0), OK_NEW); break;
  case B_DELARR: doFree(A(0), OK_NEWARR); break;
  case B_FREE: doFree(A(0), OK_MALLOC); break;
  case B_MEMCPY: copyMem(A(0), A(1), A(2)); ret(A(0)); break;
  case B_MEMSET: {
    Val v = A(1);
    if (ci.argw[1] > 8) v = v.e ? mk(mkExtract(v.e, 0, 8)) : Val{v.c & 255, nullptr};
    setMem(A(0), v, A(2));
    ret(A(0));
    break;
  }
  case B_MEMCMP: case B_BCMP: {
    uint64_t n = concretize(A(2), 64);
    if (!n) { ret({0, nullptr}); break; }
    uint32_t xi, xo, yi, yo;
    if (n > 0xffffff) die("memory", "out-of-bounds memcmp");
    resolve(A(0), n, false, xi, xo);
    resolve(A(1), n, false, yi, yo);
    if (b == B_BCMP) {
      Ex ne = mkConst(1, 0);
      for (uint64_t i = 0; i < n; i++) ne = mkBin(K_OR, ne, mkNot(mkEq(byteAt(xi, xo + i), byteAt(yi, yo + i))));
      ret(mk(mkZext(ne, 32)));
    } else {
      Ex r = mkConst(32, 0);
      for (int64_t i = n - 1; i >= 0; i--) {
        Ex x = byteAt(xi, xo + i), y = byteAt(yi, yo + i);
        Ex dif = mkIte(mkUlt(x, y), mkConst(32, 0xffffffffu), mkConst(32, 1));
        r = mkIte(mkEq(x, y), r, dif);
      }
      ret(mk(r));
    }
    break;
  }
  case B_STRLEN: {
    uint32_t id, off;
    Val p = A(0);
    resolve(p, 1, false, id, off);
    uint64_t n = 0;
    while (true) {
      Obj *o = st->mem.get(id);
      if (off + n >= o->size) die("memory", "strlen reads past the end of the object");
      if (decide(mkEq(byteAt(id, off + n), mkConst(8, 0)))) break;
      n++;
    }
    ret({n, nullptr});
    break;
  }
  case B_MEMCHR: {
    uint64_t n = concretize(A(2), 64);
    uint32_t id, off;
    uint64_t res = 0;
    if (n) {
      uint64_t base = concretize(A(0), 64);
      Ex c = mkExtract(E(1), 0, 8);
      resolve(A(0), 1, false, id, off);
      for (uint64_t i = 0; i < n; i++) {
        if (off + i >= st->mem.get(id)->size) die("memory", "memchr reads past the end of the object");
        if (decide(mkEq(byteAt(id, off + i), c))) { res = base + i; break; }
      }
    }
    ret({res, nullptr});
    break;
  }
  case B_ABORT: die("abort", "the process is aborted");
  case B_TERMINATE: die("abort", "std::terminate or pure virtual call");
  case B_ASSERTFAIL: die("abort", "assertion failure in the code");
  case B_TRAP: case B_UBTRAP: die("trap", "undefined behaviour trap");
  case B_THROWSTD: {
    std::string n = F->f->calls[I->aux].callee->name;
    static const std::pair<const char *, const char *> tab[] = {
      {"length_error", "_ZTISt12length_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"logic_error", "_ZTISt11logic_error"},
      {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new", "_ZTISt20bad_array_new_length"},
      {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_cast", "_ZTISt8bad_cast"}, {"system_error", "_ZTISt12system_error"}};
    std::string ti = "_ZTISt9exception";
    for (auto &p : tab) if (n.find(p.first) != std::string::npos) { ti = p.second; break; }
    throwNamed(ti);
    return;
  }
  case B_CXA_ALLOC: ret({newObj(std::max<uint64_t>(concretize(A(0), 64), 1), OK_MALLOC, false), nullptr}); break;
  case B_CXA_FREE: doFree(A(0), OK_MALLOC); break;
  case B_CXA_THROW: {
    uint64_t ex = concretize(A(0), 64);
    st->exc[ex] = {excName(tiName(concretize(A(1), 64))), 1};
    Frame dd = *F;
    dd.base = T->regs.size();
    dd.allocaBase = T->allocas.size();
    dd.callIdx = I->aux;
    T->fr.push_back(dd);
    F = &T->fr.back();
    unwind(ex);
    return;
  }
  case B_CXA_BEGIN: {
    uint64_t ex = concretize(A(0), 64);
    T->caught.push_back(ex);
    ret({ex, nullptr});
    break;
  }
  case B_CXA_END: {
    if (T->caught.empty()) break;
    uint64_t ex = T->caught.back();
    T->caught.pop_back();
    auto it = st->exc.find(ex);
    if (it != st->exc.end() && it->second.second <= 1) { st->exc.erase(it); doFree({ex, nullptr}, OK_MALLOC); }
    else if (it != st->exc.end()) it->second.second--;
    break;
  }
  case B_CXA_RETHROW: {
    if (T->caught.empty()) die("abort", "rethrow without exception");
    uint64_t ex = T->caught.back();
    st->exc[ex].second++;
    Frame dd = *F;
    dd.base = T->regs.size();
    dd.allocaBase = T->allocas.size();
    dd.callIdx = I->aux;
    T->fr.push_back(dd);
    F = &T->fr.back();
    unwind(ex);
    return;
  }
  case B_TYPEID: {
    uint64_t ti = A(0).c;
    ret({ti ? excName(tiName(ti)) : excName("catch-all"), nullptr});
    break;
  }
  case B_GUARD_ACQ: {
    // initialisation of a function-local static: done once, the others wait for it
    uint64_t a = concretize(A(0), 64);
    if (threaded()) {
      if (T->blockKind != 9) {
        uint32_t me = st->cur;
        pickThread(true);
        st->th[me].blockKind = 9;
        return;
      }
      T->blockKind = 0;
    }
    Val g = atomicLoad(A(0), 8);
    LockSt &l = st->locks[a], &sy = st->locks[a | (1ull << 63)];
    if (concretize(g, 8)) { joinClk(T->clk, sy.clk); ret({0, nullptr}); break; }
    if (l.writer != 255) {
      if (l.writer == st->cur) die("deadlock", "recursive initialisation of a static variable");
      T->status = 2;
      T->blockedOn = a;
      pickThread(false);
      return;
    }
    l.writer = st->cur;
    joinClk(T->clk, sy.clk);
    ret({1, nullptr});
    break;
  }
  case B_GUARD_REL: case B_GUARD_ABORT: {
    uint64_t a = concretize(A(0), 64);
    if (b == B_GUARD_REL) atomicStore(A(0), 8, {1, nullptr});
    st->locks[a].writer = 255;
    joinClk(st->locks[a | (1ull << 63)].clk, T->clk);
    T->clk[st->cur]++;
    for (auto &t : st->th) if (t.status == 2 && t.blockedOn == a) t.status = 0;
    break;
  }
  case B_DYNCAST: {
    uint64_t src = concretize(A(0), 64);
    if (!src) { ret({0, nullptr}); break; }
    uint64_t vt = concretize(load(A(0), 64), 64);
    int64_t top = (int64_t)concretize(load({vt - 16, nullptr}, 64), 64);
    std::string full = tiName(concretize(load({vt - 8, nullptr}, 64), 64)), dst = tiName(concretize(A(2), 64));
    int64_t off = 0;
    if (derives(full, dst, &off)) ret({src + top + off, nullptr});
    else ret({0, nullptr});
    break;
  }
  case B_REALLOC: {
    uint64_t p = concretize(A(0), 64), n = concretize(A(1), 64);
    if (n >= 0xfffff0) unsupported("allocation of " + std::to_string(n) + " bytes");
    uint64_t q = newObj(n, OK_MALLOC, false);
    if (p) {
      uint32_t id, off;
      if (!idOf(p, id, off) || !st->mem.get(id)) die("memory", "realloc of an invalid pointer");
      copyMem({q, nullptr}, A(0), {std::min<uint64_t>(n, st->mem.get(id)->size), nullptr});
      doFree(A(0), OK_MALLOC);
    }
    ret({q, nullptr});
    break;
  }
  case B_RET0: ret({0, nullptr}); break;
  case B_NOOP: break;
  case B_THREADLOCAL: {
    uint32_t id, off;
    if (st->cur == 0 || !idOf(A(0).c, id, off) || !P.tls.count(id)) { ret(A(0)); break; }
    auto it = st->tls.find({st->cur, id});
    if (it == st->tls.end()) {
      Obj *o = P.tls[id];
      uint64_t na = newObj(o->size, OK_GLOBAL, true);
      uint32_t ni, no;
      idOf(na, ni, no);
      st->mem.wr(ni)->b = o->b;
      it = st->tls.insert({{st->cur, id}, na}).first;
    }
    ret({it->second, nullptr});
    break;
  }
  case B_VASTART: // everything lies in the overflow area
    store(A(0), 32, {48, nullptr});
    store({A(0).c + 4, nullptr}, 32, {176, nullptr});
    store({A(0).c + 8, nullptr}, 64, {F->va, nullptr});
    store({A(0).c + 16, nullptr}, 64, {0, nullptr});
    break;
  case B_VACOPY: copyMem(A(0), A(1), {24, nullptr}); break;
  case B_CEIL: case B_FLOOR: {
    uint64_t u = concretize(A(0), 64);
    double x;
    memcpy(&x, &u, 8);
    x = b == B_CEIL ? __builtin_ceil(x) : __builtin_floor(x);
    memcpy(&u, &x, 8);
    ret({u, nullptr});
    break;
  }
  case B_EXPECT: ret(A(0)); break;
  case B_STACKSAVE: ret({0, nullptr}); break;
  case B_ISCONST: ret({0, nullptr}); break;
  case B_OBJSIZE: ret({~0ull & maskw(I->w), nullptr}); break;
  case B_UMAX: { Ex c = mkUlt(E(0), E(1)); if (E(0)->w == 64) ret(mk(decide(c) ? E(1) : E(0))); else ret(mk(mkIte(c, E(1), E(0)))); break; }
  case B_UMIN: { Ex c = mkUlt(E(0), E(1)); if (E(0)->w == 64) ret(mk(decide(c) ? E(0) : E(1))); else ret(mk(mkIte(c, E(0), E(1)))); break; }
  case B_SMAX: { Ex c = mkSlt(E(0), E(1)); if (E(0)->w == 64) ret(mk(decide(c) ? E(1) : E(0))); else ret(mk(mkIte(c, E(1), E(0)))); break; }
  case B_SMIN: { Ex c = mkSlt(E(0), E(1)); if (E(0)->w == 64) ret(mk(decide(c) ? E(0) : E(1))); else ret(mk(mkIte(c, E(0), E(1)))); break; }
  case B_ABS: { Ex x = E(0); ret(mk(mkIte(mkSlt(x, mkConst(x->w, 0)), mkBin(K_SUB, mkConst(x->w, 0), x), x))); break; }
  case B_CTPOP: {
    Ex x = E(0), r = mkConst(x->w, 0);
    if (isC(x)) r = mkConst(x->w, __builtin_popcountll(x->val));
    else for (unsigned i = 0; i < x->w; i++) r = mkBin(K_ADD, r, mkZext(mkExtract(x, i, 1), x->w));
    ret(mk(r));
    break;
  }
  case B_CTLZ: case B_CTTZ: {
    Ex x = E(0), r = mkConst(x->w, x->w);
    for (unsigned i = 0; i < x->w; i++) {
      unsigned bit = b == B_CTLZ ? i : x->w - 1 - i;
      r = mkIte(mkExtract(x, bit, 1), mkConst(x->w, b == B_CTLZ ? x->w - 1 - bit : bit), r);
    }
    ret(mk(r));
    break;
  }
  case B_BSWAP: {
    Ex x = E(0), r = nullptr;
    for (unsigned i = 0; i < x->w; i += 8) { Ex y = mkExtract(x, i, 8); r = r ? mkConcat(r, y) : y; }
    ret(mk(r));
    break;
  }
  case B_FSHL: case B_FSHR: {
    unsigned w = ci.argw[0];
    Ex x = E(0), y = E(1), s = mkBin(K_UREM, E(2), mkConst(w, w)), ns = mkBin(K_SUB, mkConst(w, w), s);
    Ex z = mkEq(s, mkConst(w, 0));
    if (b == B_FSHL) ret(mk(mkIte(z, x, mkBin(K_OR, mkBin(K_SHL, x, s), mkBin(K_LSHR, y, ns)))));
    else ret(mk(mkIte(z, y, mkBin(K_OR, mkBin(K_SHL, x, ns), mkBin(K_LSHR, y, s)))));
    break;
  }
  case B_UADDO: ov(K_ADD, false); break;
  case B_USUBO: ov(K_SUB, false); break;
  case B_UMULO: ov(K_MUL, false); break;
  case B_SADDO: ov(K_ADD, true); break;
  case B_SSUBO: ov(K_SUB, true); break;
  case B_SMULO: ov(K_MUL, true); break;
  case B_USUBSAT: { Ex x = E(0), y = E(1); ret(mk(mkIte(mkUlt(x, y), mkConst(x->w, 0), mkBin(K_SUB, x, y)))); break; }
  case B_UADDSAT: { Ex x = E(0), y = E(1), r = mkBin(K_ADD, x, y); ret(mk(mkIte(mkUlt(r, x), mkConst(x->w, ~0ull), r))); break; }
  case B_LOCK: case B_WRLOCK: case B_RDLOCK: case B_TRYLOCK: case B_TRYRD: case B_TRYWR: {
    uint64_t a = concretize(A(0), 64);
    bool tr = b == B_TRYLOCK || b == B_TRYRD || b == B_TRYWR;
    int kind = (b == B_RDLOCK || b == B_TRYRD) ? 1 : 0;
    uint32_t id, off;
    resolve(A(0), 0, false, id, off); // must be a live object
    if (threaded()) {
      if (T->blockKind != 9) { // scheduling point
        uint32_t me = st->cur;
        pickThread(true);
        st->th[me].blockKind = 9;
        return; // re-executed by whichever thread was chosen
      }
    }
    LockSt &l = st->locks[a];
    if ((b == B_LOCK || b == B_TRYLOCK) && l.writer == st->cur && off + 20 <= st->mem.get(id)->size && st->mem.get(id)->b[off + 16] == 1) {
      l.depth++; // recursive mutex
      T->blockKind = 0;
      ret({0, nullptr});
      break;
    }
    if (!lockFree(l, kind, st->cur)) {
      if (tr) { T->blockKind = 0; ret({16, nullptr}); break; }
      if (!threaded() || l.writer == st->cur || l.readers[st->cur]) die("deadlock", "a thread waits for a lock it already holds");
      T->status = 2;
      T->blockedOn = a;
      pickThread(false);
      return;
    }
    T->blockKind = 0;
    if (kind == 0) { l.writer = st->cur; joinClk(T->clk, l.clk); joinClk(T->clk, l.rclk); }
    else { l.readers[st->cur]++; joinClk(T->clk, l.clk); }
    ret({0, nullptr});
    break;
  }
  case B_UNLOCK: {
    uint64_t a = concretize(A(0), 64);
    uint32_t id, off;
    resolve(A(0), 0, false, id, off);
    LockSt &l = st->locks[a];
    if (l.writer == st->cur && l.depth) { l.depth--; ret({0, nullptr}); break; }
    if (l.writer == st->cur) { l.writer = 255; joinClk(l.clk, T->clk); }
    else if (l.readers[st->cur]) { l.readers[st->cur]--; joinClk(l.rclk, T->clk); }
    else die("lock", "unlock of a lock this thread does not hold");
    T->clk[st->cur]++;
    for (auto &t : st->th) if (t.status == 2 && t.blockedOn == a) t.status = 0;
    ret({0, nullptr});
    break;
  }
  case B_PTHREADSELF: ret({st->cur + 1, nullptr}); break;
  case B_MURMUR: { // (ptr, int len, uint64 seed)
    uint64_t len = concretize(A(1), 32);
    if ((int32_t)len < 0) die("memory", "negative hash length");
    uint64_t seed = concretize(A(2), 64);
    ret(hashCall(A(0), len, seed));
    break;
  }
  case B_HASHBYTES: {
    uint64_t len = concretize(A(1), 64);
    uint64_t seed = concretize(A(2), 64);
    ret(hashCall(A(0), len, seed ^ 0x5bd1e995));
    break;
  }
  // ------------------------------------------------ harness API
  case V_U8: case V_U64: {
    Ex v = freshInput(readStr(A(0).c, 64).c_str(), b == V_U8 ? 8 : 64);
    st->nvars++;
    st->inputs.push_back(v);
    ret({0, v});
    break;
  }
  case V_CHOOSE: {
    uint64_t lo = concretize(A(1), 64), hi = concretize(A(2), 64);
    if (lo > hi) throw Kill();
    Ex v = freshInput(readStr(A(0).c, 64).c_str(), 64);
    if (lo == hi) { // still an input, but there is nothing to decide
      st->nvars++;
      st->inputs.push_back(mkConst(64, lo));
      ret({lo, nullptr});
      break;
    }
    Ex c = mkBin(K_AND, mkNot(mkUlt(v, mkConst(64, lo))), mkNot(mkUlt(mkConst(64, hi), v)));
    if (!(isC(simp(c)) && simp(c)->val)) {
      if (!evalM(c)) st->model[v->val] = lo;
      assume(st, c);
      addFact(st, c, true);
    }
    uint64_t k = concretize({0, v}, 64);
    st->nvars++;
    st->inputs.push_back(v);
    ret({k, nullptr});
    break;
  }
  case V_CONC: ret({concretize(A(0), 64), nullptr}); break;
  case V_ASSUME: {
    Ex c = simp(mkNot(mkEq(E(0), mkConst(ci.argw[0], 0))));
    if (isC(c)) { if (!c->val) throw Kill(); break; }
    if (!evalM(c)) {
      Model m;
      if (query(c, &m) != 1) throw Kill();
      st->model = m;
    }
    assume(st, c);
    addFact(st, c, true);
    break;
  }
  case V_ASSERT: doAssert(mkNot(mkEq(E(0), mkConst(ci.argw[0], 0))), readStr(A(1).c)); break;
  case V_COVER: {
    static std::set<std::string> seen;
    std::string s = readStr(A(0).c);
    if (seen.insert(s).second) appendLine("covers.txt", s);
    break;
  }
  case V_ITE: ret(mk(mkIte(simp(mkNot(mkEq(E(0), mkConst(ci.argw[0], 0)))), E(1), E(2)))); break;
  case V_LIVE: ret({(uint64_t)st->liveHeap, nullptr}); break;
  case V_PARAM: {
    std::string n = readStr(A(0).c, 64);
    auto it = opt.params.find(n);
    ret(it == opt.params.end() ? A(1) : Val{it->second, nullptr});
    break;
  }
  case V_NOTE: break;
  case V_MARK: st->notes.push_back(readStr(A(0).c)); break;
  case V_HASHMODE: st->hashMode = concretize(A(0), 64); break;
  case V_SYM: ret({1, nullptr}); break;
  case V_SPAWN: {
    uint64_t fa = concretize(A(0), 64);
    uint32_t k = fa >= 0x3f0000000000ull ? (fa - 0x3f0000000000ull) / 16 : ~0u;
    if (k >= P.fns.size()) die("memory", "thread entry is not a function");
    if (st->th.size() >= 4) unsupported("more than 4 threads");
    Val arg = A(1);
    Thread nt;
    if (!threaded()) T->clk[0] = 1;
    memcpy(nt.clk, T->clk, sizeof nt.clk);
    uint32_t me = st->cur, nid = st->th.size();
    nt.clk[nid] = 1;
    T->clk[me]++;
    st->th.push_back(nt);
    st->cur = nid;
    T = &st->th[nid];
    // entry frame
    Fn *fn = P.fns[k];
    Frame nf{fn, 0, 0, 0, -1, -1};
    T->regs.resize(fn->nslots);
    if (!fn->argSlots.empty()) T->regs[fn->argSlots[0]] = arg;
    T->fr.push_back(nf);
    S->cov[fn->covBase] = 1;
    st->cur = me;
    refresh();
    break;
  }
  case V_JOIN: {
    for (uint32_t i = 0; i < st->th.size(); i++)
      if (i != st->cur && st->th[i].status != 1) {
        T->status = 3;
        pickThread(false);
        return;
      }
    for (uint32_t i = 0; i < st->th.size(); i++) if (i != st->cur) joinClk(T->clk, st->th[i].clk);
    break;
  }
  default: unsupported("builtin");
  }
  afterCall(ci);
}

static void callFn(Fn *fn, CallInfo &ci) {
  int b = fn->builtin;
  if ((b == B_MURMUR || b == B_HASHBYTES) && st->hashMode == 0 && fn->defined) b = -1;
  if (b >= 0) { builtin(b, ci); return; }
  if (!fn->defined) unsupported("call of external function " + demangle(fn->name));
  std::vector<Val> flat;
  for (size_t k = 0; k < ci.args.size(); k++) {
    if (k < ci.byval.size() && ci.byval[k]) {
      uint64_t a = newObj(ci.byval[k], OK_STACK, false);
      uint32_t oid, ooff;
      idOf(a, oid, ooff);
      T->allocas.push_back(oid);
      copyMem({a, nullptr}, R(ci.args[k][0]), {ci.byval[k], nullptr});
      flat.push_back({a, nullptr});
      continue;
    }
    for (int32_t o : ci.args[k]) flat.push_back(R(o));
  }
  uint64_t va = 0;
  if (fn->vararg) {
    size_t fixed = 0;
    for (uint32_t n : fn->argLeaves) fixed += n;
    if (flat.size() > fixed) {
      va = newObj(8 * (flat.size() - fixed), OK_STACK, true);
      uint32_t oid, ooff;
      idOf(va, oid, ooff);
      for (size_t k = fixed; k < flat.size(); k++) writeBytes(oid, (k - fixed) * 8, 64, flat[k].e && flat[k].e->w < 64 ? mk(mkZext(flat[k].e, 64)) : flat[k]);
    }
  }
  pushCall(fn, flat, I->dst, I->aux);
  if (va) {
    uint32_t oid, ooff;
    idOf(va, oid, ooff);
    T->allocas.push_back(oid);
    F->va = va;
  }
}

static Val cmpOp(unsigned pred, unsigned w, Val a, Val b) {
  using P_ = llvm::CmpInst;
  if (!a.e && !b.e) {
    uint64_t x = a.c & maskw(w), y = b.c & maskw(w);
    int64_t sx = sextw(x, w), sy = sextw(y, w);
    bool r = false;
    switch (pred) {
    case P_::ICMP_EQ: r = x == y; break;
    case P_::ICMP_NE: r = x != y; break;
    case P_::ICMP_UGT: r = x > y; break;
    case P_::ICMP_UGE: r = x >= y; break;
    case P_::ICMP_ULT: r = x < y; break;
    case P_::ICMP_ULE: r = x <= y; break;
    case P_::ICMP_SGT: r = sx > sy; break;
    case P_::ICMP_SGE: r = sx >= sy; break;
    case P_::ICMP_SLT: r = sx < sy; break;
    case P_::ICMP_SLE: r = sx <= sy; break;
    }
    return {r, nullptr};
  }
  Ex x = toEx(a, w), y = toEx(b, w), r = nullptr;
  switch (pred) {
  case P_::ICMP_EQ: r = mkEq(x, y); break;
  case P_::ICMP_NE: r = mkNot(mkEq(x, y)); break;
  case P_::ICMP_UGT: r = mkUlt(y, x); break;
  case P_::ICMP_UGE: r = mkNot(mkUlt(x, y)); break;
  case P_::ICMP_ULT: r = mkUlt(x, y); break;
  case P_::ICMP_ULE: r = mkNot(mkUlt(y, x)); break;
  case P_::ICMP_SGT: r = mkSlt(y, x); break;
  case P_::ICMP_SGE: r = mkNot(mkSlt(x, y)); break;
  case P_::ICMP_SLT: r = mkSlt(x, y); break;
  case P_::ICMP_SLE: r = mkNot(mkSlt(y, x)); break;
  }
  return mk(r);
}
static double asF(uint64_t v, unsigned w) {
  if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &v, 8); return d;
}
static uint64_t fromF(double d, unsigned w) {
  if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; }
  uint64_t u; memcpy(&u, &d, 8); return u;
}
static void shareWork();

// atomic access to an address: acquire+release on that address
static void atomicSync(Val a) {
  if (!threaded()) return;
  uint64_t addr = concretize(a, 64);
  LockSt &l = st->locks[addr | (1ull << 63)];
  joinClk(T->clk, l.clk);
  joinClk(l.clk, T->clk);
  T->clk[st->cur]++;
}
static Val atomicLoad(Val a, unsigned w) {
  uint32_t id, off;
  uint64_t addr = concretize(a, 64);
  // not a data access for the race detector
  if (!idOf(addr, id, off) || !st->mem.get(id) || off + (w + 7) / 8 > st->mem.get(id)->size) die("memory", "invalid atomic access");
  return readBytes(id, off, w);
}
static void atomicStore(Val a, unsigned w, Val v) {
  uint32_t id, off;
  uint64_t addr = concretize(a, 64);
  if (!idOf(addr, id, off) || !st->mem.get(id) || off + (w + 7) / 8 > st->mem.get(id)->size) die("memory", "invalid atomic access");
  writeBytes(id, off, w, v);
}
// scheduling point before an atomic access; true when the instruction must be re-executed
static bool atomicPoint() {
  if (!threaded()) return false;
  if (T->blockKind != 9) { uint32_t me = st->cur; pickThread(true); st->th[me].blockKind = 9; return true; }
  T->blockKind = 0;
  return false;
}

// execute the current state until its path ends
static void run() {
  T = &st->th[st->cur];
  if (T->fr.empty()) pickThread(false); // forked while choosing the successor of a finished thread
  refresh();
  uint64_t n = 0;
  struct Count { uint64_t &n; ~Count() { S->steps += n & 0xfff; if (st) st->steps += n & 0xfff; } } count{n};
  while (true) {
    if ((++n & 0xfff) == 0) {
      st->steps += 0x1000;
      S->steps += 0x1000;
      if (S->stop) throw Kill();
      if (st->steps > opt.maxSteps) die("nontermination", "no end after " + std::to_string(opt.maxSteps) + " instructions");
      if (now() > S->deadline) { S->unexplored++; throw Kill(); }
      shareWork();
    }
    I = &F->f->code[F->pc];
    switch (I->op) {
    case O_NOP: case O_FENCE: F->pc++; break;
    case O_BIN: {
      Val a = R(I->a), b = R(I->b);
      if (!a.e && !b.e) W(I->dst, {foldBin((Kind)I->sub, I->w, a.c, b.c), nullptr});
      else W(I->dst, mk(mkBin((Kind)I->sub, toEx(a, I->w), toEx(b, I->w))));
      F->pc++;
      break;
    }
    case O_DIV: {
      Val a = R(I->a), b = simpV(R(I->b));
      if (b.e) { if (decide(mkEq(b.e, mkConst(I->w, 0)))) die("trap", "division by zero"); }
      else if ((b.c & maskw(I->w)) == 0) die("trap", "division by zero");
      W(I->dst, mk(mkBin((Kind)I->sub, toEx(a, I->w), toEx(b, I->w))));
      F->pc++;
      break;
    }
    case O_CMP: W(I->dst, cmpOp(I->sub, I->w, R(I->a), R(I->b))); F->pc++; break;
    case O_ZEXT: {
      Val a = R(I->a);
      W(I->dst, a.e ? mk(mkZext(a.e, I->w)) : Val{a.c & maskw(I->aux), nullptr});
      F->pc++;
      break;
    }
    case O_SEXT: {
      Val a = R(I->a);
      W(I->dst, a.e ? mk(mkSext(a.e, I->w)) : Val{(uint64_t)sextw(a.c, I->aux) & maskw(I->w), nullptr});
      F->pc++;
      break;
    }
    case O_NARROW: {
      Val a = R(I->a);
      W(I->dst, a.e ? mk(mkExtract(a.e, 0, I->w)) : Val{a.c & maskw(I->w), nullptr});
      F->pc++;
      break;
    }
    case O_COPY: W(I->dst, R(I->a)); F->pc++; break;
    case O_SELECT: {
      Val c = simpV(R(I->c)), a = R(I->a), b = R(I->b);
      if (c.e) {
        bool same = a.e == b.e && (a.e || a.c == b.c);
        if (same) W(I->dst, a);
        else if (I->sub || I->w == 64) W(I->dst, decide(c.e) ? a : b);
        else W(I->dst, mk(mkIte(c.e, toEx(a, I->w), toEx(b, I->w))));
      } else W(I->dst, (c.c & 1) ? a : b);
      F->pc++;
      break;
    }
    case O_BR: takeEdge(I->aux); break;
    case O_CBR: {
      Val c = R(I->c);
      bool t = c.e ? decide(c.e) : (c.c & 1);
      takeEdge(t ? I->a : I->b);
      break;
    }
    case O_SWITCH: {
      SwitchInfo &si = F->f->switches[I->aux];
      Val v = simpV(R(I->a));
      uint32_t e = si.def;
      if (!v.e) {
        for (auto &c : si.cases) if (c.first == (v.c & maskw(I->w))) { e = c.second; break; }
      } else {
        for (auto &c : si.cases) if (decide(mkEq(v.e, mkConst(I->w, c.first)))) { e = c.second; break; }
      }
      takeEdge(e);
      break;
    }
    case O_MOVES: {
      auto &mv = F->f->moves[I->aux];
      Val tmp[64];
      size_t k = mv.size();
      if (k > 64) unsupported("large aggregate");
      for (size_t i = 0; i < k; i++) tmp[i] = R(mv[i].second);
      for (size_t i = 0; i < k; i++) W(mv[i].first, tmp[i]);
      F->pc++;
      break;
    }
    case O_GEP: {
      GepInfo &g = F->f->geps[I->aux];
      Val b = R(I->a);
      bool sym = b.e;
      for (auto &t : g.terms) if (R(t.op).e) sym = true;
      if (!sym) {
        uint64_t r = b.c + g.off;
        for (auto &t : g.terms) r += (uint64_t)sextw(R(t.op).c, t.w) * t.scale;
        W(I->dst, {r, nullptr});
      } else {
        Ex e = toEx(b, 64);
        for (auto &t : g.terms) {
          Ex x = toEx(R(t.op), t.w);
          if (t.w < 64) x = mkSext(x, 64);
          else if (t.w > 64) unsupported("gep index");
          e = mkBin(K_ADD, e, mkBin(K_MUL, x, mkConst(64, t.scale)));
        }
        e = mkBin(K_ADD, e, mkConst(64, g.off));
        W(I->dst, mk(e));
      }
      F->pc++;
      break;
    }
    case O_ALLOCA: {
      uint64_t cnt = concretize(R(I->a), 64);
      uint64_t a = newObj((uint64_t)I->aux * cnt, OK_STACK, false);
      uint32_t id, off;
      idOf(a, id, off);
      T->allocas.push_back(id);
      W(I->dst, {a, nullptr});
      F->pc++;
      break;
    }
    case O_LOAD: {
      Val a = R(I->a);
      if (I->aux) a = a.e ? mk(mkBin(K_ADD, a.e, mkConst(64, I->aux))) : Val{a.c + I->aux, nullptr};
      if (I->sub & 2) {
        if (atomicPoint()) break;
        atomicSync(a);
        W(I->dst, atomicLoad(a, I->w));
      } else W(I->dst, load(a, I->w));
      F->pc++;
      break;
    }
    case O_STORE: {
      Val a = R(I->a);
      if (I->aux) a = a.e ? mk(mkBin(K_ADD, a.e, mkConst(64, I->aux))) : Val{a.c + I->aux, nullptr};
      if (I->sub & 2) {
        if (atomicPoint()) break;
        atomicSync(a);
        atomicStore(a, I->w, R(I->b));
      } else store(a, I->w, R(I->b));
      F->pc++;
      break;
    }
    case O_RMW: {
      if (atomicPoint()) break;
      using RM = llvm::AtomicRMWInst;
      Val a = R(I->a), v = R(I->b);
      atomicSync(a);
      Val old = atomicLoad(a, I->w);
      Ex x = toEx(old, I->w), y = toEx(v, I->w), r;
      switch (I->sub) {
      case RM::Xchg: r = y; break;
      case RM::Add: r = mkBin(K_ADD, x, y); break;
      case RM::Sub: r = mkBin(K_SUB, x, y); break;
      case RM::And: r = mkBin(K_AND, x, y); break;
      case RM::Or: r = mkBin(K_OR, x, y); break;
      case RM::Xor: r = mkBin(K_XOR, x, y); break;
      default: unsupported("atomicrmw");
      }
      atomicStore(a, I->w, mk(r));
      W(I->dst, old);
      F->pc++;
      break;
    }
    case O_CMPXCHG: {
      if (atomicPoint()) break;
      Val a = R(I->a), c = R(I->b), nv = R(I->c);
      Val old = atomicLoad(a, I->w);
      bool eq = decide(mkEq(toEx(old, I->w), toEx(c, I->w)));
      atomicSync(a);
      if (eq) atomicStore(a, I->w, nv);
      W(I->dst, old);
      W(I->dst + 1, {eq, nullptr});
      F->pc++;
      break;
    }
    case O_CALL: {
      CallInfo &ci = F->f->calls[I->aux];
      Fn *fn = ci.callee;
      if (!fn) {
        uint64_t a = concretize(R(ci.target), 64);
        if (a < 0x3f0000000000ull || (a - 0x3f0000000000ull) / 16 >= P.fns.size() || (a & 15)) die("memory", "call through an invalid function pointer");
        fn = P.fns[(a - 0x3f0000000000ull) / 16];
      }
      callFn(fn, ci);
      break;
    }
    case O_RET: {
      auto &mv = F->f->moves[I->aux];
      Val tmp[16];
      size_t k = mv.size();
      if (k > 16) unsupported("large return value");
      for (size_t i = 0; i < k; i++) tmp[i] = R(mv[i].second);
      int32_t rd = F->retDst, ci = F->callIdx;
      popFrame();
      if (T->fr.empty()) {
        if (st->cur == 0) {
          if (F) {}
          return; // entry returned
        }
        T->status = 1;
        for (auto &t : st->th)
          if (t.status == 3) t.status = 0;
        pickThread(false);
        break;
      }
      if (ci == -2) return; // static constructor finished
      if (ci >= 0) {
        if (rd >= 0) for (size_t i = 0; i < k; i++) W(rd + i, tmp[i]);
        afterCall(F->f->calls[ci]);
      } else F->pc++;
      break;
    }
    case O_LPAD: W(I->dst, {T->curExc, nullptr}); W(I->dst + 1, {T->curSel & 0xffffffff, nullptr}); F->pc++; break;
    case O_RESUME: {
      uint64_t ex = concretize(R(I->a), 64);
      unwind(ex);
      break;
    }
    case O_FBIN: {
      Val a = R(I->a), b = R(I->b);
      if (a.e || b.e) unsupported("symbolic floating point");
      double x = asF(a.c, I->w), y = asF(b.c, I->w), r = 0;
      switch (I->sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; default: r = x / y; }
      W(I->dst, {fromF(r, I->w), nullptr});
      F->pc++;
      break;
    }
    case O_FCMP: {
      Val a = R(I->a), b = R(I->b);
      if (a.e || b.e) unsupported("symbolic floating point");
      double x = asF(a.c, I->w), y = asF(b.c, I->w);
      bool un = std::isnan(x) || std::isnan(y), r = false;
      unsigned p = I->sub; // bits: 1 eq, 2 gt, 4 lt, 8 unordered
      if (un) r = p & 8; else r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
      W(I->dst, {r, nullptr});
      F->pc++;
      break;
    }
    case O_FCAST: {
      Val a = simpV(R(I->a));
      if (a.e) a = {concretize(a, I->aux), nullptr};
      uint64_t r = 0;
      switch (I->c) {
      case llvm::Instruction::FPToUI: r = (uint64_t)asF(a.c, I->aux) & maskw(I->w); break;
      case llvm::Instruction::FPToSI: r = (uint64_t)(int64_t)asF(a.c, I->aux) & maskw(I->w); break;
      case llvm::Instruction::UIToFP: r = fromF((double)(a.c & maskw(I->aux)), I->w); break;
      case llvm::Instruction::SIToFP: r = fromF((double)sextw(a.c, I->aux), I->w); break;
      default: r = fromF(asF(a.c, I->aux), I->w);
      }
      W(I->dst, {r, nullptr});
      F->pc++;
      break;
    }
    case O_UNREACH: die("trap", "unreachable code reached");
    case O_UNSUP: unsupported(P.unsup[I->aux]);
    default: unsupported("opcode " + std::to_string(I->op));
    }
  }
}

// ---------------------------------------------------------------- processes
static SolverStats lastStats;
static void flushStats() {
  S->queries += solver.st.queries - lastStats.queries;
  S->sat += solver.st.sat - lastStats.sat;
  S->unsat += solver.st.unsat - lastStats.unsat;
  S->unknown += solver.st.unknown - lastStats.unknown;
  S->micros += (uint64_t)((solver.st.secs - lastStats.secs) * 1e6);
  lastStats = solver.st;
}
static void shareWork() {
  if (work.empty() || opt.jobs <= 1) return;
  int a = S->active.load();
  if (a >= opt.jobs) return;
  if (!S->active.compare_exchange_strong(a, a + 1)) return;
  int slot = S->npid++;
  if (slot >= 8192) { S->active--; return; }
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { S->active--; S->done[slot] = 1; return; }
  std::vector<State *> mine, theirs;
  // the child takes every other pending state, oldest first
  for (size_t i = 0; i < work.size(); i++) (i % 2 == 0 ? theirs : mine).push_back(work[i]);
  if (p == 0) {
    mySlot = slot;
    S->pids[slot] = getpid();
    work = theirs;
    lastStats = solver.st;
    throw ChildStart();
  }
  S->pids[slot] = p;
  for (State *s : theirs) delete s;
  work = mine;
}
static void samplePath() {
  int k = S->nsamp++;
  if (k > 4 && (int)(log((double)k) / 0.22) == (int)(log((double)k - 1) / 0.22)) return; // spread over the whole run
  appendLine("samples.txt", "{\"inputs\":" + inputsJson(st->model) + ",\"constraints\":" + std::to_string(st->pc.size()) + ",\"steps\":" + std::to_string(st->steps) + "}");
}
static void explore() {
  while (!work.empty()) {
    st = work.back();
    work.pop_back();
    if (S->stop) { delete st; S->unexplored++; continue; }
    if (now() > S->deadline) { delete st; S->unexplored++; continue; }
    try {
      run();
      S->paths++;
      samplePath();
    } catch (Kill &) {
      S->killed++;
    } catch (ChildStart &) {
      // continue with the work handed over; the parent owns the interrupted state
    }
    delete st;
    st = nullptr;
    if (work.size() >= 2) try { shareWork(); } catch (ChildStart &) {}
  }
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") opt.out = nx();
    else if (a == "--entry") opt.entry = nx();
    else if (a == "--jobs") opt.jobs = atoi(nx().c_str());
    else if (a == "--max-time") opt.maxTime = atof(nx().c_str());
    else if (a == "--max-steps") opt.maxSteps = strtoull(nx().c_str(), 0, 0);
    else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str());
    else if (a == "--rlimit") opt.rlimit = strtoull(nx().c_str(), 0, 0);
    else if (a == "--layout") opt.layout = atoi(nx().c_str());
    else if (a == "--hash") { std::string h = nx(); opt.hash = h == "const" ? 1 : h == "perfect" ? 2 : 0; }
    else if (a == "--preempt") opt.preempt = atoi(nx().c_str());
    else if (a == "--dump-smt") opt.dumpSmt = atoi(nx().c_str());
    else if (a == "--no-uninit") opt.uninit = false;
    else if (a == "--prefix") opt.prefixes.push_back(nx());
    else if (a == "-p") {
      std::string kv = nx();
      size_t e = kv.find('=');
      opt.params[kv.substr(0, e)] = strtoull(kv.substr(e + 1).c_str(), 0, 0);
    } else opt.bc = a;
  }
  // deep expression DAGs: make sure the stack is large
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 30) && !getenv("SYMEX_STACK")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ul << 30) : std::min<rlim_t>(rl.rlim_max, 1ul << 30);
    setrlimit(RLIMIT_STACK, &rl);
    setenv("SYMEX_STACK", "1", 1);
    execv("/proc/self/exe", argv);
  }
  uint32_t inv = 1;
  for (int i = 0; i < 6; i++) inv *= 2 - MULT * inv;
  MULTINV = inv;
  mkdir(opt.out.c_str(), 0755);
  State *s0 = new State();
  if (!loadProgram(opt.bc, s0->mem, addrOf)) return 3;
  size_t shsz = sizeof(Shared) + P.covTotal + 64;
  S = (Shared *)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S->t0 = now();
  S->deadline = S->t0 + opt.maxTime;
  signal(SIGCHLD, SIG_IGN);
  solver.rlimit = opt.rlimit;
  solver.init();
  Fn *entry = P.byName.count(opt.entry) ? P.byName[opt.entry] : nullptr;
  if (!entry || !entry->defined) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
  s0->hashMode = opt.hash;
  s0->th.resize(1);
  s0->th[0].clk[0] = 1;
  pid_t rootPid = getpid();
  // static constructors run concretely, one after the other
  st = s0;
  bool ok = true;
  for (Fn *c : P.ctors) {
    T = &st->th[0];
    Frame base{entry, 0, 0, 0, -1, -1};
    T->fr.push_back(base);
    F = &T->fr.back();
    pushCall(c, {}, -1, -2);
    try { run(); } catch (Kill &) { ok = false; }
    st->th[0].fr.clear();
    st->th[0].regs.clear();
    st->th[0].allocas.clear();
    if (!ok) { inconclusive("static constructor " + c->name + " could not be executed"); break; }
  }
  if (ok) {
    T = &st->th[0];
    T->fr.clear();
    T->regs.clear();
    T->allocas.clear();
    pushCall(entry, {}, -1, -1);
    st->steps = 0;
    S->active = 1;
    S->npid = 1;
    S->pids[0] = getpid();
    work.push_back(s0);
    st = nullptr;
    explore();
  }
  flushStats();
  S->done[mySlot] = 1;
  S->active--;
  if (getpid() != rootPid) _exit(0);
  // wait for the others
  bool lost = false;
  while (true) {
    bool alive = false;
    int n = std::min(S->npid.load(), 8192);
    for (int i = 1; i < n; i++)
      if (!S->done[i]) {
        int p = S->pids[i];
        if (p && kill(p, 0) != 0) {
          if (!S->done[i]) { S->done[i] = 1; S->active--; lost = true; inconclusive("a worker process was lost (memory?)"); }
        } else alive = true;
      }
    if (!alive && n == std::min(S->npid.load(), 8192)) break;
    if (now() > S->deadline + 60) {
      for (int i = 1; i < n; i++) if (!S->done[i] && S->pids[i]) { kill(S->pids[i], SIGKILL); S->done[i] = 1; S->unexplored++; }
      inconclusive("worker did not stop at the deadline");
    }
    usleep(3000);
  }
  std::map<std::string, std::set<unsigned>> lines, all;
  std::map<std::string, std::set<std::string>> funcs;
  coverage(S->cov, opt.prefixes, lines, funcs, all);
  std::string o = "{";
  auto num = [&](const char *k, double v) { char b[64]; snprintf(b, 64, "\"%s\":%.15g,", k, v); o += b; };
  num("paths", S->paths); num("killed", S->killed); num("forks", S->forks); num("instructions", S->steps);
  num("queries", S->queries); num("sat", S->sat); num("unsat", S->unsat); num("unknown", S->unknown);
  num("cache_hits", S->cacheHits); num("solver_s", S->micros / 1e6); num("asserts", S->asserts);
  num("asserts_by_solver", S->assertSolver); num("asserts_by_simplifier", S->assertTrivial);
  num("assert_solver_s", S->assertUs / 1e6);
  num("unexplored", S->unexplored); num("inconclusive", S->inconcl); num("violations", S->nviol);
  num("sched_points", S->schedules); num("max_constraints", S->maxPc); num("stopped", S->stop); num("lost", lost); num("workers", S->npid);
  num("wall_s", now() - S->t0);
  o += "\"functions\":{";
  bool first = true;
  for (auto &f : funcs) {
    o += (first ? "" : ",") + js(f.first) + ":[";
    first = false;
    bool f2 = true;
    for (auto &n : f.second) { o += (f2 ? "" : ",") + js(n); f2 = false; }
    o += "]";
  }
  o += "},\"lines\":{";
  first = true;
  for (auto &f : all) {
    o += (first ? "" : ",") + js(f.first) + ":[" + std::to_string(lines[f.first].size()) + "," + std::to_string(f.second.size()) + ",[";
    first = false;
    bool f2 = true;
    for (unsigned l : f.second) if (!lines[f.first].count(l)) { o += (f2 ? "" : ",") + std::to_string(l); f2 = false; }
    o += "]]";
  }
  o += "}}";
  FILE *f = fopen((opt.out + "/stats.json").c_str(), "w");
  if (f) { fwrite(o.data(), 1, o.size(), f); fclose(f); }
  return 0;
}
