#include "scipp/core/parallel-fallback.h"
#ifdef VERIF_SPLIT
// Contract of parallel_for: the body is run on ranges that partition the given one. Here: two ranges, cut at an arbitrary
// place and run in an arbitrary order; a finer partition follows by applying the same contract to each part.
inline int64_t verif_cut = 0;
inline bool verif_swap = false;
namespace scipp::core::parallel {
template <class Op> void split_for(const blocked_range &range, Op &&op) {
  const auto b = range.begin(), e = range.end();
  const auto m = verif_cut < b ? b : verif_cut > e ? e : verif_cut;
  if (verif_swap) { op(blocked_range(m, e)); op(blocked_range(b, m)); }
  else { op(blocked_range(b, m)); op(blocked_range(m, e)); }
}
} // namespace scipp::core::parallel
#define parallel_for split_for
#endif
