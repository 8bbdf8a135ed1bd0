// Contracts: scans, time points and unit scaling.
#include "verif.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/cumulative.h"
#include "scipp/core/element/to_unit.h"
#include "scipp/core/time_point.h"
#include "scipp/core/eigen.h"
#include "scipp/core/spatial_transforms.h"
using namespace scipp;
using namespace scipp::core;
namespace el = scipp::core::element;
using TP = time_point;
#define SCAN(N, A, B) \
  ENTRY void excl_##N(A *sum, B *x) { el::exclusive_scan(*sum, *x); } \
  ENTRY void incl_##N(A *sum, B *x) { el::inclusive_scan(*sum, *x); } \
  ENTRY void excls_##N(B *x, int64_t n) { A sum{}; for (int64_t i = 0; i < n; ++i) el::exclusive_scan(sum, x[i]); } \
  ENTRY void incls_##N(B *x, int64_t n) { A sum{}; for (int64_t i = 0; i < n; ++i) el::inclusive_scan(sum, x[i]); }
SCAN(d, double, double) SCAN(f, double, float) SCAN(l, int64_t, int64_t) SCAN(i, int32_t, int32_t)
#define TPI(N, I) \
  ENTRY int64_t add_##N(int64_t a, I b) { return el::add(TP(a), b).time_since_epoch(); } \
  ENTRY int64_t radd_##N(int64_t a, I b) { return el::add(b, TP(a)).time_since_epoch(); } \
  ENTRY int64_t sub_##N(int64_t a, I b) { return el::subtract(TP(a), b).time_since_epoch(); } \
  ENTRY int64_t addeq_##N(int64_t a, I b) { TP t(a); el::add_equals(t, b); return t.time_since_epoch(); } \
  ENTRY int64_t subeq_##N(int64_t a, I b) { TP t(a); el::subtract_equals(t, b); return t.time_since_epoch(); } \
  ENTRY bool inv_##N(int64_t a, I b) { TP t(a); return el::subtract(el::add(t, b), b) == t && el::subtract(el::add(t, b), t) == b; }
TPI(l, int64_t) TPI(i, int32_t)
ENTRY int64_t diff(int64_t a, int64_t b) { return el::subtract(TP(a), TP(b)); }
ENTRY bool tp_eq(int64_t a, int64_t b) { return TP(a) == TP(b); }
ENTRY bool tp_ne(int64_t a, int64_t b) { return TP(a) != TP(b); }
ENTRY bool tp_lt(int64_t a, int64_t b) { return TP(a) < TP(b); }
ENTRY bool tp_gt(int64_t a, int64_t b) { return TP(a) > TP(b); }
ENTRY bool tp_le(int64_t a, int64_t b) { return TP(a) <= TP(b); }
ENTRY bool tp_ge(int64_t a, int64_t b) { return TP(a) >= TP(b); }
ENTRY bool tp_hash(int64_t a, int64_t b) { return std::hash<TP>{}(TP(a)) == std::hash<TP>{}(TP(b)); }
ENTRY double tu_dd(double x, double s) { return el::to_unit(x, s); }
ENTRY float tu_fd(float x, double s) { return el::to_unit(x, s); }
ENTRY int64_t tu_ld(int64_t x, double s) { return el::to_unit(x, s); }
ENTRY int32_t tu_id(int32_t x, double s) { return el::to_unit(x, s); }
ENTRY int64_t tu_ll(int64_t x, int64_t s) { return el::to_unit(x, s); }
ENTRY int64_t tu_td(int64_t x, double s) { return el::to_unit(TP(x), s).time_since_epoch(); }
ENTRY int64_t tu_tl(int64_t x, int64_t s) { return el::to_unit(TP(x), s).time_since_epoch(); }
ENTRY void tu_v(const double *x, double s, double *o) { Eigen::Vector3d r = el::to_unit(Eigen::Vector3d(x[0], x[1], x[2]), s); for (int i = 0; i < 3; ++i) o[i] = r[i]; }
ENTRY void tu_t(const double *x, double s, double *o) { auto r = el::to_unit(Translation(Eigen::Vector3d(x[0], x[1], x[2])), s); for (int i = 0; i < 3; ++i) o[i] = r.vector()[i]; }
ENTRY void tu_a(const double *x, double s, double *o) {
  Eigen::Affine3d a = Eigen::Affine3d::Identity();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) a.matrix()(i, j) = x[4 * i + j];
  auto r = el::to_unit(a, s);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) o[4 * i + j] = r.matrix()(i, j);
}
