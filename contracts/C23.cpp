// Contracts: special values, closeness, NaN-aware minimum and maximum.
#include "verif.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/value_and_variance.h"
#include "scipp/core/time_point.h"
using namespace scipp;
namespace el = scipp::core::element;
template <class T> using VV = core::ValueAndVariance<T>;
#define CL(OP, S, T) ENTRY bool OP##_##S(T a) { return el::OP(a); }
#define CL4(OP) CL(OP, d, double) CL(OP, f, float) CL(OP, l, int64_t) CL(OP, i, int32_t)
CL4(isnan) CL4(isinf) CL4(isfinite) CL4(isposinf) CL4(isneginf)
ENTRY bool signbit_d(double a) { return numeric::signbit(a); }
ENTRY bool signbit_f(float a) { return numeric::signbit(a); }
ENTRY bool signbit_i(int32_t a) { return numeric::signbit(a); }
#define V3(OP) ENTRY bool OP##_v3(const double *x) { return el::OP(Eigen::Vector3d(x[0], x[1], x[2])); }
V3(isnan) V3(isinf) V3(isfinite)
#define RP(OP, S, T) \
  ENTRY T OP##_##S(T x, T r) { return el::OP(x, r); } \
  ENTRY void OP##_v##S(T x, T vx, T r, T vr, T *o) { VV<T> q = el::OP(VV<T>{x, vx}, VV<T>{r, vr}); o[0] = q.value; o[1] = q.variance; } \
  ENTRY void OP##_out_##S(T y, T r, T *o) { el::OP##_out_arg(o[0], y, r); } \
  ENTRY void OP##_out_v##S(T y, T vy, T r, T vr, T *o) { VV<T> q{o[0], o[1]}; el::OP##_out_arg(q, VV<T>{y, vy}, VV<T>{r, vr}); o[0] = q.value; o[1] = q.variance; }
#define RP2(OP) RP(OP, d, double) RP(OP, f, float)
RP2(nan_to_num) RP2(positive_inf_to_num) RP2(negative_inf_to_num)
#define IC(N, A, B, C) ENTRY bool isclose_##N(A x, B y, C t) { return el::isclose(x, y, t); } ENTRY bool isclose_nan_##N(A x, B y, C t) { return el::isclose_equal_nan(x, y, t); }
IC(ddd, double, double, double) IC(fff, float, float, float) IC(ffd, float, float, double)
IC(lll, int64_t, int64_t, int64_t) IC(iii, int32_t, int32_t, int32_t) IC(lld, int64_t, int64_t, double) IC(iid, int32_t, int32_t, double) IC(ild, int32_t, int64_t, double) IC(lid, int64_t, int32_t, double) IC(lil, int64_t, int32_t, int64_t) IC(iil, int32_t, int32_t, int64_t) IC(ill, int32_t, int64_t, int64_t)
#define MM(OP, S, T) ENTRY T OP##_##S(T a, T b) { el::OP(a, b); return a; }
#define MMS(OP, S, T) MM(OP, S, T) \
  ENTRY void OP##_sym_##S(T a, T b, T *o) { T x = a, y = b; el::OP(x, b); el::OP(y, a); o[0] = x; o[1] = y; } \
  ENTRY void OP##_assoc_##S(T a, T b, T c, T *o) { T x = a; el::OP(x, b); el::OP(x, c); T y = b; el::OP(y, c); T z = a; el::OP(z, y); o[0] = x; o[1] = z; }
#define MMA(OP) MMS(OP, d, double) MMS(OP, f, float) MM(OP, l, int64_t) MM(OP, i, int32_t) MM(OP, b, bool) \
  ENTRY int64_t OP##_t(int64_t a, int64_t b) { core::time_point x(a); el::OP(x, core::time_point(b)); return x.time_since_epoch(); }
MMA(max_equals) MMA(nanmax_equals) MMA(min_equals) MMA(nanmin_equals)
