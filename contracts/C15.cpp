// Contracts: which bin a coordinate belongs to.
#include "verif.h"
#include "scipp/common/span.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/histogram.h"
using namespace scipp;
using namespace scipp::core;
namespace el = scipp::core::element;
namespace {
template <class T> struct rep { using type = T; };
template <> struct rep<time_point> { using type = int64_t; };
template <class T> using rep_t = typename rep<T>::type;
template <class T> T val(rep_t<T> x) { return T(x); }
template <class T> scipp::span<const T> sp(const rep_t<T> *e, int64_t n) { return scipp::span<const T>(reinterpret_cast<const T *>(e), n); }
} // namespace
#define EDGES(S, X, E) \
  ENTRY int64_t bin_l_##S(rep_t<X> x, const rep_t<E> *e, int64_t n) { auto s = sp<E>(e, n); return get_bin<int64_t>(val<X>(x), s, linear_edge_params(s)); } \
  ENTRY int32_t bin_i_##S(rep_t<X> x, const rep_t<E> *e, int64_t n) { auto s = sp<E>(e, n); return get_bin<int32_t>(val<X>(x), s, linear_edge_params(s)); } \
  ENTRY int64_t upd_lin_l_##S(int64_t index, rep_t<X> x, const rep_t<E> *e, int64_t n) { auto s = sp<E>(e, n); el::update_indices_by_binning_linspace(index, val<X>(x), s); return index; } \
  ENTRY int64_t upd_srt_l_##S(int64_t index, rep_t<X> x, const rep_t<E> *e, int64_t n) { auto s = sp<E>(e, n); el::update_indices_by_binning_sorted_edges(index, val<X>(x), s); return index; } \
  ENTRY int32_t upd_lin_i_##S(int32_t index, rep_t<X> x, const rep_t<E> *e, int64_t n) { auto s = sp<E>(e, n); el::update_indices_by_binning_linspace(index, val<X>(x), s); return index; } \
  ENTRY int32_t upd_srt_i_##S(int32_t index, rep_t<X> x, const rep_t<E> *e, int64_t n) { auto s = sp<E>(e, n); el::update_indices_by_binning_sorted_edges(index, val<X>(x), s); return index; }
EDGES(dd, double, double) EDGES(ff, float, float) EDGES(df, double, float) EDGES(fd, float, double)
EDGES(ll, int64_t, int64_t) EDGES(ii, int32_t, int32_t) EDGES(ld, int64_t, double) EDGES(id, int32_t, double) EDGES(il, int32_t, int64_t) EDGES(tt, time_point, time_point)
#define MAP(S, X, E, WS, W) \
  ENTRY W map_lin_##S##_##WS(rep_t<X> x, const rep_t<E> *e, int64_t n, const W *w, W fill) { return el::event::map_linspace(val<X>(x), sp<E>(e, n), scipp::span<const W>(w, n - 1), fill); } \
  ENTRY W map_srt_##S##_##WS(rep_t<X> x, const rep_t<E> *e, int64_t n, const W *w, W fill) { return el::event::map_sorted_edges(val<X>(x), sp<E>(e, n), scipp::span<const W>(w, n - 1), fill); } \
  ENTRY W map_prev_##S##_##WS(rep_t<X> x, const rep_t<E> *e, int64_t n, const W *w, W fill) { return el::event::lookup_previous(val<X>(x), sp<E>(e, n), scipp::span<const W>(w, n), fill); }
MAP(dd, double, double, d, double) MAP(dd, double, double, l, int64_t) MAP(ff, float, float, f, float) MAP(fd, float, double, i, int32_t) MAP(df, double, float, d, double)
MAP(ll, int64_t, int64_t, d, double) MAP(ii, int32_t, int32_t, i, int32_t) MAP(ld, int64_t, double, d, double) MAP(id, int32_t, double, l, int64_t) MAP(tt, time_point, time_point, d, double)
// weights with variances
#define MAPV(S, X, E) \
  ENTRY void mapv_lin_##S(rep_t<X> x, const rep_t<E> *e, int64_t n, const double *w, const double *wv, double fv, double fe, double *o) { auto r = el::event::map_linspace(val<X>(x), sp<E>(e, n), ValueAndVariance<scipp::span<const double>>{scipp::span<const double>(w, n - 1), scipp::span<const double>(wv, n - 1)}, ValueAndVariance<double>{fv, fe}); o[0] = r.value; o[1] = r.variance; } \
  ENTRY void mapv_srt_##S(rep_t<X> x, const rep_t<E> *e, int64_t n, const double *w, const double *wv, double fv, double fe, double *o) { auto r = el::event::map_sorted_edges(val<X>(x), sp<E>(e, n), ValueAndVariance<scipp::span<const double>>{scipp::span<const double>(w, n - 1), scipp::span<const double>(wv, n - 1)}, ValueAndVariance<double>{fv, fe}); o[0] = r.value; o[1] = r.variance; }
MAPV(dd, double, double)
#define MUL(S, X, E, D, WS, W) \
  ENTRY D mul_lin_##S##_##WS(D y, rep_t<X> x, const rep_t<E> *e, int64_t n, const W *w) { el::event::map_and_mul_linspace(y, val<X>(x), sp<E>(e, n), scipp::span<const W>(w, n - 1)); return y; } \
  ENTRY D mul_srt_##S##_##WS(D y, rep_t<X> x, const rep_t<E> *e, int64_t n, const W *w) { el::event::map_and_mul_sorted_edges(y, val<X>(x), sp<E>(e, n), scipp::span<const W>(w, n - 1)); return y; }
MUL(dd, double, double, double, d, double) MUL(dd, double, double, float, f, float) MUL(ff, float, float, double, d, double) MUL(tt, time_point, time_point, double, f, float)
