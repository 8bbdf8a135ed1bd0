// Contracts: comparisons, selection and classification of values with variance look at the value only.
#include "verif.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/util.h"
#include "scipp/core/value_and_variance.h"
using namespace scipp;
namespace el = scipp::core::element;
template <class T> using VV = core::ValueAndVariance<T>;
#define CMP2(OP, N, A, B) \
  ENTRY bool OP##_v##N##_vv(A a, A va, B b, B vb) { return el::OP(VV<A>{a, va}, VV<B>{b, vb}); }
#define CMP1(OP, N, A, B) \
  ENTRY bool OP##_v##N##_vs(A a, A va, B b) { return el::OP(VV<A>{a, va}, b); } \
  ENTRY bool OP##_v##N##_sv(B a, A b, A vb) { return el::OP(a, VV<A>{b, vb}); }
#define CMP(OP) CMP2(OP, dd, double, double) CMP2(OP, ff, float, float) CMP2(OP, df, double, float) CMP2(OP, fd, float, double) CMP1(OP, dd, double, double) CMP1(OP, ff, float, float) CMP1(OP, df, double, float) CMP1(OP, fd, float, double) CMP1(OP, dl, double, int64_t) CMP1(OP, di, double, int32_t) CMP1(OP, fl, float, int64_t) CMP1(OP, fi, float, int32_t)
CMP(less) CMP(greater) CMP(less_equal) CMP(greater_equal) CMP(equal) CMP(not_equal)
#define SEL(OP, S, T) ENTRY void OP##_##S(T *x, T b, T vb) { VV<T> a{x[0], x[1]}; el::OP(a, VV<T>{b, vb}); x[0] = a.value; x[1] = a.variance; }
#define SEL2(OP) SEL(OP, d, double) SEL(OP, f, float)
SEL2(max_equals) SEL2(min_equals) SEL2(nanmax_equals) SEL2(nanmin_equals)
#define MM(OP, S, T) ENTRY void vv_##OP##_##S(T a, T va, T b, T vb, T *o) { auto r = core::OP(VV<T>{a, va}, VV<T>{b, vb}); o[0] = r.value; o[1] = r.variance; }
MM(min, d, double) MM(max, d, double) MM(min, f, float) MM(max, f, float)
#define CL(OP, S, T) ENTRY bool OP##_##S(T a, T va) { return el::OP(VV<T>{a, va}); }
#define CL2(OP) CL(OP, d, double) CL(OP, f, float)
CL2(isnan) CL2(isinf) CL2(isfinite) CL2(isposinf) CL2(isneginf)
#define VCL(OP, S, T) ENTRY bool v_##OP##_##S(T a, T va) { return core::OP(VV<T>{a, va}); }
#define VCL2(OP) VCL(OP, d, double) VCL(OP, f, float)
VCL2(isnan) VCL2(isinf) VCL2(isfinite) VCL2(signbit) VCL2(isposinf) VCL2(isneginf)
