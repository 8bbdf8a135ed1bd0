// Contracts: histogramming events.
#include "verif.h"
#include "scipp/common/span.h"
#include "scipp/core/element/histogram.h"
#include "core/except.cpp"
using namespace scipp;
using namespace scipp::core;
namespace el = scipp::core::element;
namespace {
template <class T> struct rep { using type = T; };
template <> struct rep<time_point> { using type = int64_t; };
template <class T> using rep_t = typename rep<T>::type;
template <class T> scipp::span<const T> sp(const rep_t<T> *e, int64_t n) { return scipp::span<const T>(reinterpret_cast<const T *>(e), n); }
} // namespace
#define HIST(XS, X, WS, W) \
  ENTRY void hist_##XS##WS(W *d, const rep_t<X> *x, const W *w, int64_t n, const rep_t<X> *e, int64_t ne) { el::histogram(scipp::span<W>(d, ne - 1), sp<X>(x, n), scipp::span<const W>(w, n), sp<X>(e, ne)); }
#define HISTV(XS, X, WS, W) HIST(XS, X, WS, W) \
  ENTRY void histv_##XS##WS(W *d, W *dv, const rep_t<X> *x, const W *w, const W *wv, int64_t n, const rep_t<X> *e, int64_t ne) { \
    el::histogram(ValueAndVariance<scipp::span<W>>{scipp::span<W>(d, ne - 1), scipp::span<W>(dv, ne - 1)}, sp<X>(x, n), ValueAndVariance<scipp::span<const W>>{scipp::span<const W>(w, n), scipp::span<const W>(wv, n)}, sp<X>(e, ne)); }
#define HISTS(XS, X) HISTV(XS, X, d, double) HISTV(XS, X, f, float) HIST(XS, X, l, int64_t) HIST(XS, X, i, int32_t)
HISTS(d, double) HISTS(f, float) HISTS(l, int64_t) HISTS(i, int32_t) HISTS(t, time_point)
