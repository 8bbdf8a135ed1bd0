// Contracts: memory bounds and overlap of strided views.
#include "dims.h"
#include "scipp/common/index_composition.h"
#include "scipp/core/element_array_view.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "core/string.cpp"
#include "core/view_index.cpp"
#include "core/element_array_view.cpp"
#include "units/dim.cpp"
using namespace scipp;
using namespace scipp::core;
using View = ElementArrayView<double>;
#define BOUNDS(R) \
  ENTRY void mb_##R(const int64_t *n, const int64_t *s, const int64_t *, int64_t *o) { const auto [b, e] = memory_bounds(n, n + R, s); o[0] = b; o[1] = e; }
BOUNDS(0) BOUNDS(1) BOUNDS(2) BOUNDS(3) BOUNDS(4) BOUNDS(5) BOUNDS(6) BOUNDS(7) BOUNDS(8)
#define OVER(R, Q) \
  ENTRY bool ov_##R##_##Q(double *buf, int64_t off, const uint16_t *l, const int64_t *n, const int64_t *s, int64_t off2, const uint16_t *k, const int64_t *m, const int64_t *u, const int64_t *, const int64_t *) { \
    View a(buf, off, make_labelled(l, n, R), make_strides(s, R)); View b(buf, off2, make_labelled(k, m, Q), make_strides(u, Q)); return a.overlaps(b); } \
  ENTRY bool ovc_##R##_##Q(double *buf, int64_t off, const uint16_t *l, const int64_t *n, const int64_t *s, int64_t off2, const uint16_t *k, const int64_t *m, const int64_t *u, const int64_t *, const int64_t *) { \
    View a(buf, off, make_labelled(l, n, R), make_strides(s, R)); ElementArrayView<const double> b(buf, off2, make_labelled(k, m, Q), make_strides(u, Q)); return b.overlaps(a); }
OVER(0, 0) OVER(0, 1) OVER(1, 0) OVER(1, 1) OVER(1, 2) OVER(2, 1) OVER(2, 2) OVER(0, 2) OVER(2, 3) OVER(3, 2) OVER(3, 1) OVER(3, 3) OVER(1, 3) OVER(4, 4) OVER(2, 4) OVER(4, 3)
