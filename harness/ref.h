// Reference semantics: the three edit distances as plain dynamic programmes,
// written without branches on symbolic data (vp_ite), independent of /repo.
#pragma once
#include "vp.h"
#include <string>
#include <vector>

enum { REF_STANDARD = 0, REF_TRANSPOSITION = 1, REF_MERGE_AND_SPLIT = 2 };

static inline uint64_t ref_min(uint64_t a, uint64_t b) { return vp_ite(a < b, a, b); }

// insertion, deletion, substitution cost 1; REF_TRANSPOSITION adds the swap of
// two adjacent characters (optimal string alignment: no substring is edited
// twice); REF_MERGE_AND_SPLIT adds one-for-two and two-for-one replacement.
// With a band, only cells within `band` of the diagonal are computed: distances
// up to the band are exact, larger ones come out as some value above it.
static uint64_t ref_distance(int alg, const std::string &v, const std::string &w, size_t band = 1000000) {
  size_t m = v.size(), n = w.size();
  std::vector<uint64_t> d((m + 1) * (n + 1), 1000000);
  auto D = [&](size_t i, size_t j) -> uint64_t & { return d[i * (n + 1) + j]; };
  for (size_t i = 0; i <= m; i++)
    for (size_t j = i > band ? i - band : 0; j <= n && j <= i + band; j++) {
      if (i == 0) { D(i, j) = j; }
      else if (j == 0) { D(i, j) = i; }
      else {
        uint64_t r = ref_min(D(i - 1, j) + 1, D(i, j - 1) + 1);
        r = ref_min(r, D(i - 1, j - 1) + vp_ite(v[i - 1] == w[j - 1], 0, 1));
        if (alg == REF_TRANSPOSITION && i > 1 && j > 1) {
          int sw = (int)(v[i - 1] == w[j - 2]) & (int)(v[i - 2] == w[j - 1]);
          r = ref_min(r, vp_ite(sw, D(i - 2, j - 2) + 1, r));
        }
        if (alg == REF_MERGE_AND_SPLIT) {
          if (i > 1) r = ref_min(r, D(i - 2, j - 1) + 1);
          if (j > 1) r = ref_min(r, D(i - 1, j - 2) + 1);
        }
        D(i, j) = r;
      }
    }
  uint64_t out = D(m, n);
  return out;
}

// equality of two byte strings as one truth value, without branching
static inline int ref_same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return 0;
  int r = 1;
  for (size_t i = 0; i < a.size(); i++) r &= (int)(a[i] == b[i]);
  return r;
}
