// Contracts: rebinning.
#include "verif.h"
#include "scipp/common/span.h"
#include "scipp/core/element/rebin.h"
#include "scipp/core/time_point.h"
using namespace scipp;
using namespace scipp::core;
namespace el = scipp::core::element;
namespace {
template <class T> struct rep { using type = T; };
template <> struct rep<time_point> { using type = int64_t; };
template <class T> using rep_t = typename rep<T>::type;
template <class T> scipp::span<const T> sp(const rep_t<T> *e, int64_t n) { return scipp::span<const T>(reinterpret_cast<const T *>(e), n); }
// the order functors which lib/variable/rebin.cpp passes
struct Greater { template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept { return a > b; } };
struct Less { template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept { return a < b; } };
} // namespace
#define REBIN1(NAME, ORD, O, OE, I, IE) \
  ENTRY void NAME(O *d, const rep_t<OE> *xn, int64_t nn, const I *s, const rep_t<IE> *xo, int64_t no) { el::rebin<ORD>(scipp::span<O>(d, nn - 1), sp<OE>(xn, nn), scipp::span<const I>(s, no - 1), sp<IE>(xo, no)); }
#define REBIN2(NAME, ORD, O, OE, I, IE) \
  ENTRY void NAME(O *d, O *dv, const rep_t<OE> *xn, int64_t nn, const I *s, const I *sv, const rep_t<IE> *xo, int64_t no) { \
    el::rebin<ORD>(ValueAndVariance<scipp::span<O>>{scipp::span<O>(d, nn - 1), scipp::span<O>(dv, nn - 1)}, sp<OE>(xn, nn), ValueAndVariance<scipp::span<const I>>{scipp::span<const I>(s, no - 1), scipp::span<const I>(sv, no - 1)}, sp<IE>(xo, no)); }
#define REBIN(NAME, O, OE, I, IE) REBIN1(rebin_a_##NAME, Less, O, OE, I, IE) REBIN1(rebin_d_##NAME, Greater, O, OE, I, IE)
#define REBINV(NAME, O, OE, I, IE) REBIN(NAME, O, OE, I, IE) REBIN2(rebinv_a_##NAME, Less, O, OE, I, IE) REBIN2(rebinv_d_##NAME, Greater, O, OE, I, IE)
REBIN(ddld, double, double, int64_t, double)
REBIN(ddid, double, double, int32_t, double)
REBINV(dtdt, double, time_point, double, time_point)
REBINV(ftft, float, time_point, float, time_point)
REBIN(dtlt, double, time_point, int64_t, time_point)
REBIN(dtit, double, time_point, int32_t, time_point)
REBIN(dtbt, double, time_point, bool, time_point)
REBINV(dddd, double, double, double, double)
REBINV(ffff, float, float, float, float)
REBINV(fdfd, float, double, float, double)
REBINV(fffd, float, float, float, double)
REBIN(ddbd, double, double, bool, double)
