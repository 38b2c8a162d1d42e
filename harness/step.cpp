// One step of the Levenshtein automaton from an arbitrary state, anywhere in a
// query of any length.
//
// After some word x was read, D[k] is the edit distance between x and the
// first base+k letters of the query (everything above the maximum distance n
// counts as n+1). A state stands for such a row of numbers: its position (i,e)
// says "distance e to the first i letters". Starting from a state that stands
// for an arbitrary row the library reads one letter; the next state has to
// stand for the next row of the dynamic programme. Together with the first
// row this is the induction step of the exactness of queries, for terms and
// queries of any length.
#include "vp.h"
#include "ref.h"
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/distance.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/position_transition.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include "liblevenshtein/transducer/state_transition.h"
#include "liblevenshtein/transducer/subsumes.h"
#include "liblevenshtein/transducer/unsubsume.h"
#include <vector>
using namespace liblevenshtein;

static uint64_t diff(uint64_t a, uint64_t b) { return a < b ? b - a : a - b; }

template <Algorithm A> static void step(int alg, uint64_t n) {
  const uint64_t INF = n + 1;
  // The row: the letters read so far number |x| = base + centre. Only the
  // cells within n of |x| can be at most n.
  uint64_t centre = vp_choose("centre", 0, n), base = 0;
  if (centre == n) {
    base = vp_u64("base");
    vp_assume(base <= (UINT64_MAX >> 1));
  }
  bool at_start = centre < n || vp_concrete(base == 0);
  // letters of the query from base on; 2n+3 stands for that many or more
  uint64_t rest = vp_choose("rest", 0, 2 * n + 3), more = 0;
  if (rest == 2 * n + 3) {
    more = vp_u64("more");
    vp_assume(more <= (UINT64_MAX >> 2));
  }
  uint64_t len = base + rest + more;
  uint64_t cells = (rest < 2 * n + 2 ? rest : 2 * n + 2) + 1;
  std::vector<uint64_t> D(cells), T(cells, INF);
  int any = 0;
  for (uint64_t k = 0; k < cells; k++) {
    D[k] = vp_u64("D");
    vp_assume(D[k] <= INF);
    vp_assume(D[k] >= ref_min(diff(k, centre), INF));
    if (k == 0 && at_start) vp_assume(D[k] == centre); // the first column of the table
    if (k > 0) vp_assume((int)(D[k] <= D[k - 1] + 1) & (int)(D[k - 1] <= D[k] + 1));
    if (vp_param("split", 0)) D[k] = vp_concrete(D[k]);
    any |= D[k] <= n;
  }
  vp_assume(any);
  auto d = [&](const std::vector<uint64_t> &r, uint64_t k) { return k < cells ? r[k] : INF; }; // k may wrap below 0
  // edits of two letters begun by the letter read last
  std::vector<bool> begins(cells);
  bool full = vp_param("full", 0);
  for (uint64_t k = 0; k < cells && alg != REF_STANDARD; k++) {
    uint64_t e = D[k];
    if (alg == REF_TRANSPOSITION ? k + 2 >= cells : k + 1 >= cells) continue;
    int useful = (int)(e > 0) & (int)(e <= n) & (int)(d(D, k + 1) == e) &
                 (alg == REF_TRANSPOSITION ? (int)(d(D, k + 2) == e) : (int)(d(D, k - 1) >= e));
    if (!vp_choose("begun", 0, 1)) continue;
    vp_assume(useful);
    T[k] = e;
    begins[k] = true;
  }
  // the state: without (or with) the positions that follow from others
  State *state = new State();
  for (uint64_t k = 0; k < cells; k++) {
    int follows = full ? 0 : (int)(d(D, k - 1) < D[k]) | (int)(d(D, k + 1) < D[k]);
    if (vp_concrete((int)(D[k] <= n) & !follows)) merge<A>(state, std::vector<Position *>{new Position(base + k, D[k])});
    if (begins[k]) merge<A>(state, std::vector<Position *>{new Position(base + k, T[k], true)});
  }
  state->sort(compare<A>);
  // the next letter: equal to which letters of the query
  uint64_t offset = state->head()->term_index();
  uint64_t from = vp_concrete(offset - base);
  uint64_t window = 2 * n + 1 < rest - from ? 2 * n + 1 : rest - from;
  std::vector<uint64_t> hit(cells + 2, 0);
  for (uint64_t k = 0; k + 1 < cells; k++) hit[k] = vp_u8("hit") & 1;
  std::vector<bool> vec(window);
  for (uint64_t k = 0; k < window; k++) vec[k] = hit[from + k];
  StateTransition transition(position_transition<A>, compare<A>, merge<A>, UnsubsumeFn(subsumes<A>), n, len);
  State *next = transition(state, vec);
  // the next row
  std::vector<uint64_t> E(cells, INF), U(cells, INF);
  for (uint64_t k = 0; k < cells; k++) {
    uint64_t v = d(D, k) + 1;
    if (k > 0) v = ref_min(v, ref_min(E[k - 1] + 1, d(D, k - 1) + 1 - hit[k - 1]));
    if (alg == REF_TRANSPOSITION && k > 1) v = ref_min(v, vp_ite(hit[k - 2] == 1, T[k - 2], INF));
    if (alg == REF_MERGE_AND_SPLIT && k > 1) v = ref_min(v, d(D, k - 2) + 1);
    if (alg == REF_MERGE_AND_SPLIT && k > 0) v = ref_min(v, T[k - 1]);
    E[k] = ref_min(v, INF);
    if (alg == REF_TRANSPOSITION && k + 2 < cells) U[k] = ref_min(vp_ite(hit[k + 1] == 1, D[k] + 1, INF), INF);
    if (alg == REF_MERGE_AND_SPLIT && k + 1 < cells) U[k] = ref_min(D[k] + 1, INF);
  }
  // the last cell of a cut-off row depends on letters that were left out
  uint64_t judged = rest == 2 * n + 3 ? cells - 1 : cells;
  std::vector<uint64_t> got(cells, INF), begun(cells, INF);
  if (next != nullptr) {
    vp_cover("alive");
    vp_assert(next->head() != nullptr, "an empty state was returned");
    uint64_t head = next->head()->term_index(), seen = 0;
    for (Position *p : *next) {
      uint64_t i = vp_concrete(p->term_index() - base), e = p->num_errors();
      vp_assert(i < cells, "a position lies beyond the end of the query");
      vp_assert(e <= n, "a position has too many errors");
      vp_assert(p->term_index() >= head && p->term_index() - head <= 2 * n, "a position lies outside of the window of its state");
      vp_assert(++seen <= 8 * (n + 1) * (n + 1), "a state repeats positions");
      if (p->is_special()) {
        vp_assert(e >= U[i], "an edit of two letters begins where it cannot");
        begun[i] = ref_min(begun[i], e);
      } else
        for (uint64_t k = 0; k < cells; k++) got[k] = ref_min(got[k], e + diff(i, k));
    }
  } else
    vp_cover("dead");
  for (uint64_t k = 0; k < judged; k++) {
    vp_note("cell", nullptr, k);
    vp_note("expected", nullptr, E[k]);
    vp_note("found", nullptr, got[k]);
    vp_assert(got[k] >= E[k], "the state after a letter claims too small a distance to a prefix of the query");
    vp_assert(got[k] <= E[k], "the state after a letter has lost the distance to a prefix of the query");
    uint64_t u = U[k];
    if (alg == REF_STANDARD || (alg == REF_TRANSPOSITION ? k + 2 >= judged : k + 1 >= judged)) continue;
    int needed = (int)(u <= n) & (int)(u <= E[k]) & (int)(u <= d(E, k + 1)) & (int)(u <= (alg == REF_TRANSPOSITION ? d(E, k + 2) : d(E, k - 1)));
    vp_assert(!needed | (int)(begun[k] <= u), "the state after a letter has lost the beginning of an edit of two letters");
  }
  if (next != nullptr && rest < 2 * n + 3) {
    uint64_t found = distance<A>(next, len);
    if (rest < cells) vp_assert((int)(found == E[rest]) | ((int)(E[rest] > n) & (int)(found > n)), "the distance at the end of the query is wrong");
    else vp_assert(found > n, "the distance at the end of the query is wrong");
    delete next;
  } else
    delete next;
  delete state;
}

void vp_main() {
  uint64_t n = vp_param("n", 1);
  switch (vp_param("alg", 0)) {
  case 0: step<Algorithm::STANDARD>(0, n); break;
  case 1: step<Algorithm::TRANSPOSITION>(1, n); break;
  case 2: step<Algorithm::MERGE_AND_SPLIT>(2, n); break;
  }
}
