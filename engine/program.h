#pragma once
#include "engine.h"
struct Program {
  std::vector<Fn *> fns;
  std::unordered_map<const llvm::Function *, Fn *> fnOf;
  std::unordered_map<std::string, Fn *> byName;
  std::unordered_map<uint32_t, std::string> gname;
  std::unordered_map<std::string, uint64_t> gaddr;
  std::map<std::string, std::vector<std::pair<std::string, int64_t>>> tiBase; // bases and their offsets (not virtual)
  std::map<uint32_t, Obj *> tls; // thread-local variables: initial image
  std::vector<Fn *> ctors;
  std::vector<std::string> warn, unsup;
  uint32_t covTotal = 0;
};
extern Program P;
bool loadProgram(const std::string &path, Memory &mem, uint64_t (*addrOf)(uint32_t));
void sourceStack(const llvm::Instruction *i, std::vector<std::string> &out);
void coverage(const uint8_t *cov, const std::vector<std::string> &prefixes, std::map<std::string, std::set<unsigned>> &lines,
              std::map<std::string, std::set<std::string>> &funcs, std::map<std::string, std::set<unsigned>> &allLines);
std::string demangle(const std::string &n);
