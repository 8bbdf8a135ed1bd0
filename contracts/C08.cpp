// Contracts: flat positions <-> index tuples, strides.
#include "dims.h"
#include "scipp/common/index_composition.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "core/string.cpp"
#include "units/dim.cpp"
using namespace scipp;
using namespace scipp::core;
#define RANK(N) \
  ENTRY void extract_##N(int64_t flat, const int64_t *shape, int64_t *idx) { extract_indices(flat, shape, shape + N, idx); } \
  ENTRY int64_t compose_##N(const int64_t *strides, const int64_t *idx) { return flat_index_from_strides(strides, strides + N, idx); } \
  ENTRY int64_t roundtrip_##N(int64_t flat, const int64_t *shape, int64_t *idx) { \
    Strides s(make_dims(shape, N)); \
    int64_t rshape[N + 1], rs[N + 1]; \
    for (int i = 0; i < N; ++i) { rshape[i] = shape[N - 1 - i]; rs[i] = s[N - 1 - i]; } \
    extract_indices(flat, rshape, rshape + N, idx); \
    return flat_index_from_strides(rs, rs + N, idx); \
  } \
  ENTRY void strides_##N(const int64_t *shape, int64_t *o) { Strides s(make_dims(shape, N)); for (int i = 0; i < N; ++i) o[i] = s[i]; o[N] = s.size(); } \
  ENTRY void offsets_##N(const int64_t *shape, int64_t *o) { auto d = make_dims(shape, N); for (int i = 0; i < N; ++i) o[i] = d.offset(Dim(Dim::Id(1000 + i))); o[N] = d.volume(); } \
  ENTRY void fromspan_##N(const int64_t *x, int64_t *o) { Strides s = make_strides(x, N); for (int i = 0; i < N; ++i) o[i] = s[i]; o[N] = s.size(); } \
  ENTRY bool eq_##N(const int64_t *x, const int64_t *y) { return make_strides(x, N) == make_strides(y, N); } \
  ENTRY bool ne_##N(const int64_t *x, const int64_t *y) { return make_strides(x, N) != make_strides(y, N); } \
  ENTRY void push_##N(const int64_t *x, int64_t a, int64_t *o) { Strides s = make_strides(x, N); s.push_back(a); for (int i = 0; i <= N; ++i) o[i] = s[i]; o[N + 1] = s.size(); } \
  ENTRY int64_t clear_##N(const int64_t *x) { Strides s = make_strides(x, N); s.clear(); return s.size(); } \
  ENTRY void resize_##N(const int64_t *x, int64_t *o) { for (int m = 0; m <= 8; ++m) { Strides s = make_strides(x, N); s.resize(m); for (int i = 0; i < N && i < m; ++i) o[m * (N + 1) + i] = s[i]; o[m * (N + 1) + N] = s.size(); } } \
  ENTRY void transpose_##N(const int64_t *x, const int64_t *shape, const uint16_t *order, int64_t *o) { \
    Dim l[N + 1]; for (int i = 0; i < N; ++i) l[i] = Dim(Dim::Id(order[i])); \
    Strides s = transpose(make_strides(x, N), make_dims(shape, N), scipp::span<const Dim>(l, l + N)); \
    for (int i = 0; i < N; ++i) o[i] = s[i]; o[N] = s.size(); }
RANK(0) RANK(1) RANK(2) RANK(3) RANK(4) RANK(5) RANK(6)
#define ERASE(N) ENTRY void erase_##N(const int64_t *x, int64_t k, int64_t *o) { Strides s = make_strides(x, N); s.erase(k); for (int i = 0; i < N - 1; ++i) o[i] = s[i]; o[N - 1] = s.size(); }
ERASE(1) ERASE(2) ERASE(3) ERASE(4) ERASE(5) ERASE(6)
ENTRY int64_t compose_n(const int64_t *strides, const int64_t *idx, int64_t n) { return flat_index_from_strides(strides, strides + n, idx); }
