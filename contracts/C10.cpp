// Contracts: propagation of uncertainties (scipp/core/value_and_variance.h) through the element operations.
#include "verif.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/util.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/value_and_variance.h"
using namespace scipp;
namespace el = scipp::core::element;
template <class T> using VV = core::ValueAndVariance<T>;
template <class R> static void put(const VV<R> &r, R *o) { o[0] = r.value; o[1] = r.variance; }
// out of place, both operands uncertain
#define VVVV(OP, N, A, B, R) ENTRY void N(A a, A va, B b, B vb, R *o) { put<R>(el::OP(VV<A>{a, va}, VV<B>{b, vb}), o); }
#define VVS(OP, N, A, B, R) ENTRY void N(A a, A va, B b, R *o) { put<R>(el::OP(VV<A>{a, va}, b), o); }
#define SVV(OP, N, A, B, R) ENTRY void N(A a, B b, B vb, R *o) { put<R>(el::OP(a, VV<B>{b, vb}), o); }
#define IVV(OP, N, A, B) ENTRY void N(A *x, B b, B vb) { VV<A> v{x[0], x[1]}; el::OP(v, VV<B>{b, vb}); x[0] = v.value; x[1] = v.variance; }
#define IVS(OP, N, A, B) ENTRY void N(A *x, B b) { VV<A> v{x[0], x[1]}; el::OP(v, b); x[0] = v.value; x[1] = v.variance; }
#define BINOP(OP) \
  VVVV(OP, OP##_vd_vd, double, double, double) VVVV(OP, OP##_vf_vf, float, float, float) VVVV(OP, OP##_vd_vf, double, float, double) VVVV(OP, OP##_vf_vd, float, double, double) \
  VVS(OP, OP##_vd_d, double, double, double) VVS(OP, OP##_vf_f, float, float, float) VVS(OP, OP##_vd_f, double, float, double) VVS(OP, OP##_vf_d, float, double, double) VVS(OP, OP##_vd_l, double, int64_t, double) VVS(OP, OP##_vd_i, double, int32_t, double) VVS(OP, OP##_vf_l, float, int64_t, float) VVS(OP, OP##_vf_i, float, int32_t, float) \
  SVV(OP, OP##_d_vd, double, double, double) SVV(OP, OP##_f_vf, float, float, float) SVV(OP, OP##_d_vf, double, float, double) SVV(OP, OP##_f_vd, float, double, double) SVV(OP, OP##_l_vd, int64_t, double, double) SVV(OP, OP##_i_vd, int32_t, double, double) SVV(OP, OP##_l_vf, int64_t, float, float)
BINOP(add) BINOP(subtract) BINOP(multiply) BINOP(divide)
#define INOP(OP, N) \
  IVV(OP, N##_vd_vd, double, double) IVV(OP, N##_vf_vf, float, float) IVV(OP, N##_vd_vf, double, float) IVV(OP, N##_vf_vd, float, double) IVS(OP, N##_vd_d, double, double) IVS(OP, N##_vd_f, double, float) IVS(OP, N##_vd_l, double, int64_t) IVS(OP, N##_vd_i, double, int32_t) IVS(OP, N##_vf_l, float, int64_t) IVS(OP, N##_vf_f, float, float)
INOP(add_equals, iadd) INOP(subtract_equals, isubtract) INOP(multiply_equals, imultiply) INOP(divide_equals, idivide)
VVS(multiply, multiply_vd_b, double, bool, double) SVV(multiply, multiply_b_vd, bool, double, double)
IVV(nan_add_equals, inan_add_vd_vd, double, double)
#define UN(OP, T, S) ENTRY void OP##_v##S(T a, T va, T *o) { put<T>(el::OP(VV<T>{a, va}), o); }
#define UN2(OP) UN(OP, double, d) UN(OP, float, f)
UN2(negative) UN2(abs) UN2(sqrt) UN2(exp) UN2(log) UN2(log10) UN2(reciprocal)
VVS(pow, pow_vd_d, double, double, double) VVS(pow, pow_vf_f, float, float, float)
#define POWI(K, NAME) ENTRY void pow_vd_##NAME(double a, double va, double *o) { put<double>(el::pow(VV<double>{a, va}, int64_t{K}), o); }
POWI(0, 0) POWI(1, 1) POWI(2, 2) POWI(3, 3) POWI(4, 4) POWI(5, 5) POWI(7, 7) POWI(-1, m1) POWI(-2, m2) POWI(-3, m3)
ENTRY void pow_ip_vd_d(double a, double va, double e, double *o) { VV<double> out{0., 0.}; el::pow_in_place(out, VV<double>{a, va}, e); put<double>(out, o); }
ENTRY void pow_ip_vd_2(double a, double va, double *o) { VV<double> out{0., 0.}; el::pow_in_place(out, VV<double>{a, va}, int64_t{2}); put<double>(out, o); }
ENTRY double values_vd(double a, double va) { return el::values(VV<double>{a, va}); }
ENTRY double variances_vd(double a, double va) { return el::variances(VV<double>{a, va}); }
ENTRY double stddevs_vd(double a, double va) { return el::stddevs(VV<double>{a, va}); }
ENTRY void where_vd(bool c, double a, double va, double b, double vb, double *o) { put<double>(el::where(c, VV<double>{a, va}, VV<double>{b, vb}), o); }
ENTRY void convert_fd(float a, float va, double *o) { put<double>(static_cast<VV<double>>(VV<float>{a, va}), o); }
ENTRY void assign_vd_d(double a, double va, double b, double *o) { VV<double> x{a, va}; x = b; put<double>(x, o); }
ENTRY void assign_vd_vf(double a, double va, float b, float vb, double *o) { VV<double> x{a, va}; x = VV<float>{b, vb}; put<double>(x, o); }
ENTRY void from_double(double a, double *o) { VV<double> x(a); put<double>(x, o); }
ENTRY void ev_get(const double *v, const double *w, int64_t n, int64_t i, double *o) {
  put<double>(el::event::get(VV<scipp::span<const double>>(scipp::span<const double>(v, n), scipp::span<const double>(w, n)), i), o);
}
ENTRY void zero_spans(double *v, double *w, int64_t n) { el::zero(VV<scipp::span<double>>(scipp::span<double>(v, n), scipp::span<double>(w, n))); }
ENTRY void fill_vd(double a, double va, double b, double vb, double *o) { VV<double> x{a, va}; el::fill(x, VV<double>{b, vb}); put<double>(x, o); }
ENTRY void fill_zeros_vd(double a, double va, double *o) { VV<double> x{a, va}; el::fill_zeros(x); put<double>(x, o); }
