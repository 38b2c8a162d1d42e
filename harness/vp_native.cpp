// Native implementation of the harness API: replays one recorded path (the
// counterexample or a sampled path) against the real library, compiled
// normally. Inputs come from $VP_INPUT (one decimal value per line).
#include "vp.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>

static std::atomic<long> g_live{0};
#ifndef VP_TSAN
static char *g_arena = nullptr;
static size_t g_top = 0;
static const size_t ARENA = 64u << 20;
static int g_layout = -1;
static void *take(size_t n) {
  if (g_layout < 0) { const char *l = getenv("VP_LAYOUT"); g_layout = l ? atoi(l) : 0; }
  g_live++;
  void *p;
  if (g_layout == 1) { // descending addresses
    if (!g_arena) { g_arena = (char *)malloc(ARENA); g_top = ARENA; }
    n = (n + 31) & ~(size_t)15;
    if (n > g_top) abort();
    g_top -= n;
    p = g_arena + g_top;
  } else p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static void give(void *p) {
  if (!p) return;
  g_live--;
  if (g_layout == 1) return;
  free(p);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
#endif

static std::vector<unsigned long long> *g_in;
static size_t g_pos;
static std::map<std::string, uint64_t> *g_par;
static unsigned long long next_input() { return g_pos < g_in->size() ? (*g_in)[g_pos++] : 0; }
static std::vector<std::pair<void (*)(void *), void *>> *g_jobs;

extern "C" {
uint8_t vp_u8(const char *) { return (uint8_t)next_input(); }
uint64_t vp_u64(const char *) { return next_input(); }
uint64_t vp_choose(const char *, uint64_t lo, uint64_t hi) {
  if (lo > hi) _exit(78);
  uint64_t v = next_input();
  if (v < lo || v > hi) { if (g_pos >= g_in->size()) return lo; fprintf(stderr, "VP-MISMATCH: choice out of range\n"); _exit(78); }
  return v;
}
uint64_t vp_concrete(uint64_t v) { return v; }
void vp_assume(int c) { if (!c) { fprintf(stderr, "VP-ASSUME: assumption not met\n"); _exit(78); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("VP-FAIL: %s\n", msg); fflush(stdout); _exit(77); } }
void vp_cover(const char *l) { printf("cover %s\n", l); }
uint64_t vp_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vp_live(void) { return (uint64_t)g_live.load(); }
void vp_spawn(void (*fn)(void *), void *arg) { g_jobs->push_back({fn, arg}); }
void vp_join_all(void) {
  std::vector<std::thread> ts;
  std::atomic<int> ready{0};
  int k = (int)g_jobs->size();
  const char *js = getenv("VP_JITTER");
  unsigned seed = js ? (unsigned)atoi(js) : 0;
  for (int i = 0; i < k; i++)
    ts.emplace_back([&, i] {
      ready++;
      while (ready.load() < k) std::this_thread::yield();
      if (seed) std::this_thread::sleep_for(std::chrono::microseconds((seed * 2654435761u >> (i * 8 + 3)) % 300));
      (*g_jobs)[i].first((*g_jobs)[i].second);
    });
  for (auto &t : ts) t.join();
  g_jobs->clear();
}
uint64_t vp_param(const char *name, uint64_t dflt) {
  auto it = g_par->find(name);
  return it == g_par->end() ? dflt : it->second;
}
void vp_note(const char *label, const char *s, uint64_t n) {
  if (!s) { printf("%s = %llu\n", label, (unsigned long long)n); return; }
  printf("%s = \"", label);
  for (uint64_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '"' && c != '\\') putchar(c); else printf("\\x%02x", c); }
  printf("\"\n");
}
void vp_hash_mode(int) {}
int vp_is_symbolic(void) { return 0; }
void vp_mark(const char *) {}
}

#ifdef VP_HASH_CONST
uint64_t MurmurHash64A(const void *, int, uint64_t) { return 7; }
#endif

int main() {
  g_in = new std::vector<unsigned long long>();
  g_par = new std::map<std::string, uint64_t>();
  g_jobs = new std::vector<std::pair<void (*)(void *), void *>>();
  g_jobs->reserve(16);
  if (const char *f = getenv("VP_INPUT"))
    if (FILE *h = fopen(f, "r")) {
      unsigned long long v;
      while (fscanf(h, "%llu", &v) == 1) g_in->push_back(v);
      fclose(h);
    }
  if (const char *p = getenv("VP_PARAMS")) {
    std::string s = p;
    size_t i = 0;
    while (i < s.size()) {
      size_t e = s.find(' ', i);
      if (e == std::string::npos) e = s.size();
      std::string kv = s.substr(i, e - i);
      size_t q = kv.find('=');
      if (q != std::string::npos) (*g_par)[kv.substr(0, q)] = strtoull(kv.c_str() + q + 1, nullptr, 0);
      i = e + 1;
    }
  }
  vp_main();
  printf("VP-OK\n");
  fflush(stdout);
  _exit(0);
}
