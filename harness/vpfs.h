// Files for the serializer harness: in memory when executed symbolically, real
// files below $VP_WORK in a native replay.
#pragma once
#include <string>
#ifdef VP_SYMBOLIC
#include "stubs/vp_fs.h"
static inline std::string vpfs_path(const char *n) { return std::string("/work/") + n; }
static inline void vpfs_put(const std::string &p, const std::string &s) { VpFs::get().files[p] = s; }
static inline bool vpfs_get(const std::string &p, std::string &s) {
  auto it = VpFs::get().files.find(p);
  if (it == VpFs::get().files.end()) return false;
  s = it->second;
  return true;
}
static inline void vpfs_remove(const std::string &p) { VpFs::get().files.erase(p); }
static inline void vpfs_mkdir(const std::string &p) { VpFs::get().dirs.insert(p); }
static inline void vpfs_forget() { VpFs::get().made.clear(); }
extern "C" int rename(const char *a, const char *b) noexcept {
  VpFs &fs = VpFs::get();
  auto it = fs.files.find(a);
  if (it == fs.files.end() || !VpFs::dir_ok(b)) return -1;
  std::string s = it->second;
  fs.files[b] = s;
  if (std::string(a) != b) fs.files.erase(a);
  return 0;
}
extern "C" int unlink(const char *a) noexcept { return VpFs::get().files.erase(a) ? 0 : -1; }
extern "C" int remove(const char *a) noexcept { return unlink(a); }
static inline void vpfs_limit(uint64_t n) { VpFs::get().limit = n; }
#else
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <sys/resource.h>
#include <unistd.h>
static inline std::string vpfs_dir() {
  static std::string d;
  if (d.empty()) {
    const char *w = getenv("VP_WORK");
    std::string t = std::string(w ? w : "/tmp") + "/vpfs-XXXXXX";
    char *p = mkdtemp(&t[0]);
    if (!p) _exit(78);
    d = p;
  }
  return d;
}
static inline std::string vpfs_path(const char *n) { return vpfs_dir() + "/" + n; }
static inline void vpfs_put(const std::string &p, const std::string &s) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) _exit(78);
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
static inline bool vpfs_get(const std::string &p, std::string &s) {
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return false;
  char b[4096];
  size_t k;
  s.clear();
  while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  fclose(f);
  return true;
}
#include <sys/stat.h>
static inline void vpfs_mkdir(const std::string &p) { mkdir(p.c_str(), 0755); }
static inline void vpfs_forget() {}
static inline void vpfs_remove(const std::string &p) { unlink(p.c_str()); }
static inline void vpfs_limit(uint64_t n) { // a write beyond n bytes fails (EFBIG)
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit r;
  getrlimit(RLIMIT_FSIZE, &r);
  r.rlim_cur = n == ~0ull ? r.rlim_max : n;
  setrlimit(RLIMIT_FSIZE, &r);
}
#endif
