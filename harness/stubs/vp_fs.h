// An in-memory file system for the symbolic run. A write that would take a file
// beyond `limit` bytes stores what fits and fails, as a full disk does.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
struct VpFs {
  std::map<std::string, std::string> files;
  std::set<std::string> dirs, made; // that exist beside /work and those of files; made later below a missing one
  uint64_t limit = ~0ull;
  static VpFs &get() { static VpFs *f = new VpFs(); return *f; }
  static std::string parent(const std::string &p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : p.substr(0, k); }
  // whether a file may be created or opened there
  static bool dir_ok(const std::string &p) {
    if (p.empty() || p.back() == '/' || get().dirs.count(p) || get().made.count(p)) return false;
    return p.find("/missing/") == std::string::npos || get().made.count(parent(p));
  }
};
