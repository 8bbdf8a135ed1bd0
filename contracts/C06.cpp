// Contracts: joint traversal of several dense operands.
#include "dims.h"
#include "scipp/core/multi_index.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "core/string.cpp"
#include "core/view_index.cpp"
#include "core/element_array_view.cpp"
#include "core/multi_index.cpp"
#include "units/dim.cpp"
using namespace scipp;
using namespace scipp::core;
namespace {
inline int64_t pos(const int64_t *n, const int64_t *i, int R) { int64_t p = 0; for (int d = 0; d < R; ++d) p = p * n[d] + i[d]; return p; }
// indices with the T innermost ones at the end of their dimension
inline void at_end(const int64_t *n, const int64_t *i, int64_t *j, int R, int T) { for (int d = 0; d < R; ++d) j[d] = d >= R - T ? n[d] - 1 : i[d]; }
template <int N, std::size_t... I> MultiIndex<N> make(const Dimensions &d, const int64_t *s, int R, std::index_sequence<I...>) { return MultiIndex<N>(d, make_strides(s + I * R, R)...); }
template <int N, int R> MultiIndex<N> make(const int64_t *n, const int64_t *s) { return make<N>(make_dims(n, R), s, R, std::make_index_sequence<N>{}); }
} // namespace
// positions of all operands at an index tuple
#define SET(N, R) \
  ENTRY void mi_set_##N##_##R(const int64_t *n, const int64_t *s, const int64_t *i, int64_t *o) { \
    auto a = make<N, R>(n, s); a.set_index(pos(n, i, R)); for (int k = 0; k < N; ++k) o[k] = a.get()[k]; o[N] = a == a.end(); o[N + 1] = a.has_bins(); o[N + 2] = a.has_stride_zero(); o[N + 3] = a.end() == make<N, R>(n, s).end(); o[N + 4] = a.begin() == make<N, R>(n, s); } \
  ENTRY void mi_begin_##N##_##R(const int64_t *n, const int64_t *s, int64_t *o) { \
    auto a = make<N, R>(n, s); auto b = a.begin(), e = a.end(); for (int k = 0; k < N; ++k) { o[k] = b.get()[k]; o[N + k] = a.get()[k]; } o[2 * N] = b == e; o[2 * N + 1] = a == b; o[2 * N + 2] = b != e; }
// one step from the element whose T innermost indices are at the end and the next one is not
#define STEP(N, R, T) \
  ENTRY void mi_step_##N##_##R##_##T(const int64_t *n, const int64_t *s, const int64_t *i, int64_t *o) { \
    int64_t j[R + 1]; at_end(n, i, j, R, T); const auto p = pos(n, j, R); \
    auto a = make<N, R>(n, s); auto b = a; a.set_index(p); a.increment(); b.set_index(p + 1); \
    for (int k = 0; k < N; ++k) { o[k] = a.get()[k]; o[N + k] = b.get()[k]; } o[2 * N] = a == b && !(a != b); o[2 * N + 1] = a == a.end(); o[2 * N + 2] = b == b.end(); }
// the k-th element of the innermost run that starts at the index tuple, and the step over the whole run
#define RUN(N, R) \
  ENTRY void mi_run_##N##_##R(const int64_t *n, const int64_t *s, const int64_t *i, int64_t k, int64_t *o) { \
    const auto p = pos(n, i, R); auto a = make<N, R>(n, s); auto b = a; a.set_index(p); \
    const auto len = a.inner_distance_to_end(); o[0] = len; o[1] = k < len; \
    if (k < len) { b.set_index(p + k); for (int d = 0; d < N; ++d) { o[2 + d] = a.get()[d] + k * a.inner_strides()[d]; o[2 + N + d] = b.get()[d]; } o[2 + 2 * N] = a.inner_distance_to(b); o[2 + 2 * N + 1] = a.in_same_chunk(b, 1); \
      auto c = a; c.increment_by(k); o[5 + 3 * N] = k == 0 || c == b; \
      auto e = a; e.set_index(p + (len - 1)); e.increment(); a.increment_by(len); o[2 + 2 * N + 2] = a == e; for (int d = 0; d < N; ++d) o[2 + 2 * N + 3 + d] = a.get()[d] - e.get()[d]; } }
// two elements that agree in all but the D+1 innermost indices
#define CHUNK(N, R, D) \
  ENTRY void mi_chunk_##N##_##R##_##D(const int64_t *n, const int64_t *s, const int64_t *i, const int64_t *j, int64_t *o) { \
    int64_t jj[R + 1]; for (int d = 0; d < R; ++d) jj[d] = d < R - 1 - D ? i[d] : j[d]; \
    auto a = make<N, R>(n, s); auto b = a; a.set_index(pos(n, i, R)); b.set_index(pos(n, jj, R)); \
    o[0] = a.in_same_chunk(b, 1); o[1] = a.inner_distance_to(b); o[2] = a.inner_distance_to_end(); o[3] = a == b; }
#define R0(N) SET(N, 0) STEP(N, 0, 0)
#define R1(N) SET(N, 1) STEP(N, 1, 0) STEP(N, 1, 1) RUN(N, 1) CHUNK(N, 1, 0)
#define R2(N) SET(N, 2) STEP(N, 2, 0) STEP(N, 2, 1) STEP(N, 2, 2) RUN(N, 2) CHUNK(N, 2, 0) CHUNK(N, 2, 1)
#define R3(N) SET(N, 3) STEP(N, 3, 0) STEP(N, 3, 1) STEP(N, 3, 2) STEP(N, 3, 3) RUN(N, 3) CHUNK(N, 3, 0) CHUNK(N, 3, 1) CHUNK(N, 3, 2)
#define R4(N) SET(N, 4) STEP(N, 4, 0) STEP(N, 4, 1) STEP(N, 4, 2) STEP(N, 4, 3) STEP(N, 4, 4) RUN(N, 4) CHUNK(N, 4, 0) CHUNK(N, 4, 1) CHUNK(N, 4, 2) CHUNK(N, 4, 3)
#define R5(N) SET(N, 5) STEP(N, 5, 0) STEP(N, 5, 1) STEP(N, 5, 2) STEP(N, 5, 3) STEP(N, 5, 4) STEP(N, 5, 5) RUN(N, 5) CHUNK(N, 5, 0) CHUNK(N, 5, 1) CHUNK(N, 5, 2) CHUNK(N, 5, 3) CHUNK(N, 5, 4)
#define R6(N) SET(N, 6) STEP(N, 6, 0) STEP(N, 6, 1) STEP(N, 6, 2) STEP(N, 6, 3) STEP(N, 6, 4) STEP(N, 6, 5) STEP(N, 6, 6) RUN(N, 6) CHUNK(N, 6, 0) CHUNK(N, 6, 1) CHUNK(N, 6, 2) CHUNK(N, 6, 3) CHUNK(N, 6, 4) CHUNK(N, 6, 5)
R0(1) R1(1) R2(1) R3(1) R4(1) R5(1) R6(1)
R0(2) R1(2) R2(2) R3(2) R4(2) R5(2) R6(2)
R0(3) R1(3) R2(3) R3(3) R4(3)
R0(4) R1(4) R2(4) R3(4)
R0(5) R1(5) R2(5) R3(5)
