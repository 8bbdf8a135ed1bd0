// Contracts: dimension lists as ordered maps with unique labels.
#include "lists.h"
#define HEAD const uint16_t *l, const int64_t *s
#define TAIL uint16_t *ol, int64_t *os, int32_t *f
#define OP(NAME, N, PARAMS, ...) ENTRY int64_t NAME##_##N(HEAD, PARAMS, TAIL) { auto d = make_labelled(l, s, N); *f = guarded([&] { __VA_ARGS__; }); return dump(d, ol, os); }
#define COMMA ,
#define RANK(N) \
  ENTRY int64_t build_##N(HEAD, TAIL) { Dimensions d; *f = guarded([&] { Labels<N> ll(l); d = Dimensions(ll, scipp::span<const scipp::index>(s, s + N)); }); return dump(d, ol, os); } \
  OP(add, N, uint16_t k COMMA int64_t z, d.add(D(k), z)) \
  OP(addInner, N, uint16_t k COMMA int64_t z, d.addInner(D(k), z)) \
  OP(set, N, uint16_t k COMMA int64_t z, d.set(D(k), z)) \
  OP(resize, N, uint16_t k COMMA int64_t z, d.resize(D(k), z)) \
  OP(erase, N, uint16_t k COMMA int64_t z, d.erase(D(k))) \
  OP(replace, N, uint16_t k COMMA uint16_t z, d.replace_key(D(k), D(z))) \
  OP(clear, N, uint16_t k COMMA int64_t z, d.clear()) \
  ENTRY int64_t rename1_##N(HEAD, uint16_t k, uint16_t z, bool strict, TAIL) { \
    auto d = make_labelled(l, s, N); Dimensions r; \
    *f = guarded([&] { r = d.rename_dims({{D(k), D(z)}}, strict); }); \
    dump(d, ol + N + 1, os + N + 1); return dump(r, ol, os); } \
  ENTRY int64_t rename1s_##N(HEAD, uint16_t k, uint16_t z, bool strict, TAIL) { \
    const Sizes d = make_labelled(l, s, N); Sizes r; \
    *f = guarded([&] { r = d.rename_dims({{D(k), D(z)}}, strict); }); \
    dump(d, ol + N + 1, os + N + 1); return dump(r, ol, os); } \
  ENTRY int64_t lookup_##N(HEAD, uint16_t k, int64_t *o, int32_t *f) { \
    const auto d = make_labelled(l, s, N); \
    *f = guarded([&] { o[0] = d.index(D(k)); }); \
    f[1] = guarded([&] { o[1] = d[D(k)]; }); \
    f[2] = guarded([&] { o[2] = d.at(D(k)); }); \
    o[3] = d.find(D(k)) - d.begin(); o[4] = d.contains(D(k)); o[5] = d.empty(); o[6] = d.ndim(); \
    return d.Sizes::size(); } \
  ENTRY int64_t places_##N(HEAD, uint16_t *ol, int64_t *os) { \
    const auto d = make_labelled(l, s, N); \
    for (int i = 0; i < N; ++i) { ol[i] = uint16_t(d.label(i).id()); os[i] = d.size(i); } \
    ol[N] = uint16_t(d.inner().id()); int i = N + 1; \
    for (const auto &x : d) ol[i++] = uint16_t(x.id()); \
    for (auto it = d.rbegin(); it != d.rend(); ++it) ol[i++] = uint16_t(it->id()); \
    return i; } \
  ENTRY int64_t copies_##N(HEAD, uint16_t k, int64_t z, TAIL) { \
    auto d = make_labelled(l, s, N); Dimensions e(d), g; g = d; \
    *f = guarded([&] { e.addInner(D(k), z); e.resize(D(k), 7); g.clear(); }); \
    dump(d, ol + N + 1, os + N + 1); Dimensions h(std::move(e)); return dump(h, ol, os); } \
  ENTRY int64_t temp_##N(HEAD, uint16_t k, int64_t z, TAIL) { \
    auto d = make_labelled(l, s, N); \
    *f = guarded([&] { d.addInner(D(k), z); d.erase(D(k)); }); return dump(d, ol, os); }
RANK(0) RANK(1) RANK(2) RANK(3) RANK(4) RANK(5) RANK(6)
#define EQ(N, M) \
  ENTRY bool eq_##N##_##M(const uint16_t *l, const int64_t *s, const uint16_t *m, const int64_t *r) { return make_labelled(l, s, N) == make_labelled(m, r, M); } \
  ENTRY bool ne_##N##_##M(const uint16_t *l, const int64_t *s, const uint16_t *m, const int64_t *r) { return make_labelled(l, s, N) != make_labelled(m, r, M); } \
  ENTRY bool eqs_##N##_##M(const uint16_t *l, const int64_t *s, const uint16_t *m, const int64_t *r) { const Sizes a = make_labelled(l, s, N), b = make_labelled(m, r, M); return a == b; } \
  ENTRY bool nes_##N##_##M(const uint16_t *l, const int64_t *s, const uint16_t *m, const int64_t *r) { const Sizes a = make_labelled(l, s, N), b = make_labelled(m, r, M); return a != b; }
EQ(0, 0) EQ(0, 1) EQ(1, 0) EQ(1, 1) EQ(1, 2) EQ(2, 1) EQ(2, 2) EQ(3, 3) EQ(3, 2) EQ(2, 3) EQ(4, 4)
#define REN2(N) \
  ENTRY int64_t rename2_##N(HEAD, uint16_t k, uint16_t z, uint16_t k2, uint16_t z2, bool strict, TAIL) { \
    auto d = make_labelled(l, s, N); Dimensions r; \
    *f = guarded([&] { r = d.rename_dims({{D(k), D(z)}, {D(k2), D(z2)}}, strict); }); \
    dump(d, ol + N + 1, os + N + 1); return dump(r, ol, os); }
REN2(0) REN2(1) REN2(2) REN2(3) REN2(4)
ENTRY int64_t mismatch(const uint16_t *l, const int64_t *s, int64_t n, int64_t m) { int64_t r = 0; const Labels<3> ll(l); const scipp::span<const Dim> a = ll; return guarded([&] { r = Dimensions(scipp::span<const Dim>(a.data(), n), scipp::span<const scipp::index>(s, m)).ndim(); }); }
