// Contracts: combining dimension lists.
#include "lists.h"
#define A const uint16_t *l, const int64_t *s
#define B const uint16_t *m, const int64_t *r
#define TAIL uint16_t *ol, int64_t *os, int32_t *f
#define PAIR(N, M) \
  ENTRY int64_t merge_##N##_##M(A, B, TAIL) { const auto a = make_labelled(l, s, N), b = make_labelled(m, r, M); Dimensions x; *f = guarded([&] { x = merge(a, b); }); \
    dump(a, ol + N + M + 1, os + N + M + 1); dump(b, ol + 2 * N + M + 1, os + 2 * N + M + 1); return dump(x, ol, os); } \
  ENTRY int64_t merges_##N##_##M(A, B, TAIL) { const Sizes a = make_labelled(l, s, N), b = make_labelled(m, r, M); Sizes x; *f = guarded([&] { x = merge(a, b); }); \
    dump(a, ol + N + M + 1, os + N + M + 1); dump(b, ol + 2 * N + M + 1, os + 2 * N + M + 1); return dump(x, ol, os); } \
  ENTRY int64_t intersect_##N##_##M(A, B, TAIL) { const auto a = make_labelled(l, s, N), b = make_labelled(m, r, M); Dimensions x; *f = guarded([&] { x = intersection(a, b); }); return dump(x, ol, os); } \
  ENTRY bool includes_##N##_##M(A, B) { const auto a = make_labelled(l, s, N), b = make_labelled(m, r, M); return a.includes(b); } \
  ENTRY int expect_##N##_##M(A, B) { const auto a = make_labelled(l, s, N), b = make_labelled(m, r, M); return guarded([&] { scipp::expect::includes(a, b); }); } \
  ENTRY int expects_##N##_##M(A, B) { const Sizes a = make_labelled(l, s, N), b = make_labelled(m, r, M); return guarded([&] { scipp::expect::includes(a, b); }); } \
  ENTRY int64_t transpose_##N##_##M(A, const uint16_t *m, TAIL) { const auto a = make_labelled(l, s, N); const Labels<M> order(m); Dimensions x; *f = guarded([&] { x = transpose(a, order); }); \
    dump(a, ol + N + 1, os + N + 1); return dump(x, ol, os); }
#define ROW(M) PAIR(0, M) PAIR(1, M) PAIR(2, M) PAIR(3, M) PAIR(4, M)
ROW(0) ROW(1) ROW(2) ROW(3) ROW(4)
PAIR(5, 5) PAIR(6, 6)
#define ONE(N) \
  ENTRY int64_t reverse_##N(A, TAIL) { const auto a = make_labelled(l, s, N); Dimensions x; *f = guarded([&] { x = transpose(a); }); return dump(x, ol, os); } \
  ENTRY int64_t self_##N(A, TAIL) { const auto a = make_labelled(l, s, N); Dimensions x; *f = guarded([&] { x = merge(a, a); if (!(merge(a) == a && merge(a, Dimensions{}) == a && merge(Dimensions{}, a) == a && a.includes(a) && a.includes(Dimensions{}))) x = Dimensions{}; }); return dump(x, ol, os); }
ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6)
#define TRIPLE(N, M, K) \
  ENTRY int64_t merge3_##N##_##M##_##K(A, B, const uint16_t *p, const int64_t *q, TAIL) { const auto a = make_labelled(l, s, N), b = make_labelled(m, r, M), c = make_labelled(p, q, K); Dimensions x; *f = guarded([&] { x = merge(a, b, c); }); return dump(x, ol, os); }
TRIPLE(1, 1, 1) TRIPLE(2, 1, 1) TRIPLE(1, 2, 2) TRIPLE(2, 2, 2)
