// Contracts: walking a strided view.
#include "dims.h"
#include "scipp/core/view_index.h"
#include "scipp/core/element_array_view.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "core/string.cpp"
#include "core/view_index.cpp"
#include "core/element_array_view.cpp"
#include "units/dim.cpp"
using namespace scipp;
using namespace scipp::core;
namespace {
// number of the element with the given indices (outermost dimension first)
inline int64_t pos(const int64_t *n, const int64_t *i, int R) { int64_t p = 0; for (int d = 0; d < R; ++d) p = p * n[d] + i[d]; return p; }
// indices with the T innermost ones at the end of their dimension
inline void at_end(const int64_t *n, const int64_t *i, int64_t *j, int R, int T) { for (int d = 0; d < R; ++d) j[d] = d >= R - T ? n[d] - 1 : i[d]; }
// the inductive part of the state, if it is there under this name
template <class V> auto same_coord(const V &a, const V &b, int) -> decltype(a.m_coord == b.m_coord) { for (std::size_t d = 0; d < a.m_coord.size(); ++d) if (a.m_coord[d] != b.m_coord[d]) return false; return true; }
template <class V> bool same_coord(const V &, const V &, long) { return true; }
using View = ElementArrayView<double>;
} // namespace
#define RANK(R) \
  ENTRY void vi_set_##R(const int64_t *n, const int64_t *s, const int64_t *i, int64_t *o) { \
    ViewIndex v(make_dims(n, R), make_strides(s, R)); const auto p = pos(n, i, R); \
    o[2] = v.get(); v.set_index(p); o[0] = v.get(); o[1] = v.index(); } \
  ENTRY int64_t va_begin_##R(double *buf, int64_t off, const int64_t *n, const int64_t *s) { \
    View v(buf, off, make_dims(n, R), make_strides(s, R)); return &*v.begin() - buf; } \
  ENTRY int64_t va_at_##R(double *buf, int64_t off, const int64_t *n, const int64_t *s, const int64_t *i) { \
    View v(buf, off, make_dims(n, R), make_strides(s, R)); return &v[pos(n, i, R)] - buf; } \
  ENTRY int64_t va_back_##R(double *buf, int64_t off, const int64_t *n, const int64_t *s) { \
    View v(buf, off, make_dims(n, R), make_strides(s, R)); return &v.back() - buf; } \
  ENTRY void va_end_##R(double *buf, int64_t off, const int64_t *n, const int64_t *s, int64_t *o) { \
    View v(buf, off, make_dims(n, R), make_strides(s, R)); o[0] = v.end() - v.begin(); o[1] = v.size(); o[2] = v.begin() == v.end(); o[3] = v.begin() != v.end(); } \
  ENTRY void va_dist_##R(double *buf, int64_t off, const int64_t *n, const int64_t *s, const int64_t *i, const int64_t *j, int64_t *o) { \
    View v(buf, off, make_dims(n, R), make_strides(s, R)); const auto p = pos(n, i, R), q = pos(n, j, R); auto a = v.begin() + p, b = v.begin() + q; \
    o[0] = b - a; o[1] = a == b; o[2] = a < b; o[3] = a >= b; } \
  ENTRY void va_span_##R(double *buf, int64_t off, const int64_t *n, const int64_t *s, int64_t *o) { \
    View v(buf, off, make_dims(n, R), make_strides(s, R)); const auto x = v.as_span(); o[0] = x.data() - buf; o[1] = x.size(); }
RANK(0) RANK(1) RANK(2) RANK(3) RANK(4) RANK(5) RANK(6)
// the element with indices i: T innermost ones at the end, the next one not
#define STEP(R, T) \
  ENTRY void vi_step_##R##_##T(const int64_t *n, const int64_t *s, const int64_t *i, int64_t *o) { \
    int64_t j[R + 1]; at_end(n, i, j, R, T); const auto p = pos(n, j, R); \
    ViewIndex v(make_dims(n, R), make_strides(s, R)); v.set_index(p); v.increment(); \
    ViewIndex w(make_dims(n, R), make_strides(s, R)); w.set_index(p + 1); \
    o[0] = v.get(); o[1] = v.index(); o[2] = w.get(); o[3] = v == w && !(v != w); o[4] = T == R || same_coord(v, w, 0); } \
  ENTRY void va_step_##R##_##T(double *buf, int64_t off, const int64_t *n, const int64_t *s, const int64_t *i, int64_t *o) { \
    int64_t j[R + 1]; at_end(n, i, j, R, T); const auto p = pos(n, j, R); \
    View v(buf, off, make_dims(n, R), make_strides(s, R)); \
    auto a = v.begin() + p; auto b = v.begin() + (p + 1); ++a; \
    o[0] = T == R ? 0 : &*a - buf; o[1] = a == b; o[2] = a == v.end(); o[3] = a - v.begin(); --a; o[4] = &*a - buf; o[5] = a - v.begin(); }
STEP(0, 0) STEP(1, 0) STEP(1, 1) STEP(2, 0) STEP(2, 1) STEP(2, 2) STEP(3, 0) STEP(3, 1) STEP(3, 2) STEP(3, 3)
STEP(4, 0) STEP(4, 1) STEP(4, 2) STEP(4, 3) STEP(4, 4) STEP(5, 0) STEP(5, 1) STEP(5, 2) STEP(5, 3) STEP(5, 4) STEP(5, 5)
STEP(6, 0) STEP(6, 1) STEP(6, 2) STEP(6, 3) STEP(6, 4) STEP(6, 5) STEP(6, 6)
// view of a view: other iteration dimensions (broadcast, transposed, sliced)
#define RE(R, Q) \
  ENTRY int64_t re_##R##_##Q(double *buf, int64_t off, const uint16_t *l, const int64_t *n, const int64_t *s, const uint16_t *k, const int64_t *m, const int64_t *j) { \
    View v(View(buf, off, make_labelled(l, n, R), make_strides(s, R)), make_labelled(k, m, Q)); return &v[pos(m, j, Q)] - buf; }
RE(0, 0) RE(0, 1) RE(0, 2) RE(1, 0) RE(1, 1) RE(1, 2) RE(1, 3) RE(2, 0) RE(2, 1) RE(2, 2) RE(2, 3) RE(3, 0) RE(3, 1) RE(3, 2) RE(3, 3) RE(4, 2) RE(2, 4)
