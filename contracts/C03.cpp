// Contracts: slice descriptions and slicing of dimension lists.
#include "lists.h"
#define TAIL uint16_t *ol, int64_t *os, int32_t *f
namespace {
inline void put(const Slice &s, int64_t *o) { o[0] = uint16_t(s.dim().id()); o[1] = s.begin(); o[2] = s.end(); o[3] = s.stride(); o[4] = s.isRange(); }
} // namespace
ENTRY int range(uint16_t k, int64_t b, int64_t e, int64_t st, int64_t *o) { return guarded([&] { put(Slice(D(k), b, e, st), o); }); }
ENTRY int range1(uint16_t k, int64_t b, int64_t e, int64_t *o) { return guarded([&] { put(Slice(D(k), b, e), o); }); }
ENTRY int point(uint16_t k, int64_t b, int64_t *o) { return guarded([&] { put(Slice(D(k), b), o); }); }
ENTRY bool eq(uint16_t k, int64_t b, int64_t e, int64_t st, uint16_t k2, int64_t b2, int64_t e2, int64_t st2) { return Slice(D(k), b, e, st) == Slice(D(k2), b2, e2, st2); }
ENTRY bool ne(uint16_t k, int64_t b, int64_t e, int64_t st, uint16_t k2, int64_t b2, int64_t e2, int64_t st2) { return Slice(D(k), b, e, st) != Slice(D(k2), b2, e2, st2); }
ENTRY void copied(uint16_t k, int64_t b, int64_t e, int64_t st, int64_t *o) { Slice s(D(k), b, e, st), u; Slice w(s); u = w; put(u, o); }
#define RANK(N) \
  ENTRY int64_t slice_##N(const uint16_t *l, const int64_t *s, uint16_t k, int64_t b, int64_t e, int64_t st, TAIL) { \
    const Slice p(D(k), b, e, st); const Sizes d = make_labelled(l, s, N); Sizes r; \
    *f = guarded([&] { r = d.slice(p); }); dump(d, ol + N + 1, os + N + 1); return dump(r, ol, os); } \
  ENTRY int64_t pick_##N(const uint16_t *l, const int64_t *s, uint16_t k, int64_t b, TAIL) { \
    const Slice p(D(k), b); const Sizes d = make_labelled(l, s, N); Sizes r; \
    *f = guarded([&] { r = d.slice(p); }); dump(d, ol + N + 1, os + N + 1); return dump(r, ol, os); } \
  ENTRY int64_t all_##N(const uint16_t *l, const int64_t *s, TAIL) { \
    const Slice p; const Sizes d = make_labelled(l, s, N); Sizes r; \
    *f = guarded([&] { r = d.slice(p); }); dump(d, ol + N + 1, os + N + 1); return dump(r, ol, os); } \
  ENTRY int fits_##N(const uint16_t *l, const int64_t *s, uint16_t k, int64_t b, int64_t e, int64_t st) { \
    const Slice p(D(k), b, e, st); const auto d = make_labelled(l, s, N); return guarded([&] { core::expect::validSlice(d, p); }); } \
  ENTRY int64_t twice_##N(const uint16_t *l, const int64_t *s, uint16_t k, int64_t b, int64_t e, uint16_t k2, int64_t b2, int64_t e2, TAIL) { \
    const Slice p(D(k), b, e), q(D(k2), b2, e2); const Sizes d = make_labelled(l, s, N); Sizes r; \
    *f = guarded([&] { r = d.slice(p).slice(q); }); return dump(r, ol, os); }
RANK(0) RANK(1) RANK(2) RANK(3) RANK(4) RANK(5) RANK(6)
