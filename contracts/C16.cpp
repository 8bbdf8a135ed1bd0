// Contracts: counting events per bin and moving them there.
#include "verif.h"
#include <string>
#include <vector>
#include "scipp/common/span.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/element/map_to_bins.h"
#include "core/subbin_sizes.cpp"
using namespace scipp;
using namespace scipp::core;
namespace el = scipp::core::element;
// counts: o = {offset, number of counts, count of bin k}
#define COUNT(S, I) \
  ENTRY void count_##S(const I *a, int64_t n, int64_t offset, int64_t nbin, int64_t k, int64_t *o) { \
    const auto r = el::count_indices(scipp::span<const I>(a, n), offset, nbin); o[0] = r.offset(); o[1] = scipp::size(r.sizes()); o[2] = r.sizes()[k]; }
COUNT(l, int64_t) COUNT(i, int32_t)
#define MOVE(S, T, IS, I) \
  ENTRY void move_##S##_##IS(T *out, int64_t nout, int64_t *bins, int64_t nbin, const T *x, const I *a, int64_t n) { \
    scipp::span<T> binned(out, nout); scipp::span<scipp::index> b(bins, nbin); el::map_to_bins_direct(binned, b, scipp::span<const T>(x, n), scipp::span<const I>(a, n)); } \
  ENTRY void movev_##S##_##IS(T *out, T *outv, int64_t nout, int64_t *bins, int64_t nbin, const T *x, const T *xv, const I *a, int64_t n) { \
    ValueAndVariance<scipp::span<T>> binned{scipp::span<T>(out, nout), scipp::span<T>(outv, nout)}; scipp::span<scipp::index> b(bins, nbin); \
    el::map_to_bins_direct(binned, b, ValueAndVariance<scipp::span<const T>>{scipp::span<const T>(x, n), scipp::span<const T>(xv, n)}, scipp::span<const I>(a, n)); }
#define MOVES(S, T) MOVE(S, T, l, int64_t) MOVE(S, T, i, int32_t)
MOVES(d, double) MOVES(f, float)
#define MOVE1(S, T, IS, I) \
  ENTRY void move_##S##_##IS(T *out, int64_t nout, int64_t *bins, int64_t nbin, const T *x, const I *a, int64_t n) { \
    scipp::span<T> binned(out, nout); scipp::span<scipp::index> b(bins, nbin); el::map_to_bins_direct(binned, b, scipp::span<const T>(x, n), scipp::span<const I>(a, n)); }
MOVE1(l, int64_t, l, int64_t) MOVE1(l, int64_t, i, int32_t) MOVE1(i, int32_t, l, int64_t) MOVE1(i, int32_t, i, int32_t)
// the kernel as called, with the counts of all output bins
#define BIN(S, T, IS, I) \
  ENTRY void bin_##S##_##IS(T *out, int64_t nout, int64_t offset, const int64_t *bins, int64_t nbin, const T *x, const I *a, int64_t n) { \
    scipp::span<T> binned(out, nout); el::bin(binned, SubbinSizes(offset, std::vector<scipp::index>(bins, bins + nbin)), scipp::span<const T>(x, n), scipp::span<const I>(a, n)); }
BIN(d, double, l, int64_t) BIN(d, double, i, int32_t) BIN(i, int32_t, l, int64_t)
#define CHUNK(C, S, T, IS, I) \
  ENTRY void chunk_##C##_##S##_##IS(T *out, int64_t nout, int64_t *bins, int64_t nbin, const T *x, const I *a, int64_t n) { \
    scipp::span<T> binned(out, nout); scipp::span<scipp::index> b(bins, nbin); el::map_to_bins_chunkwise<C>(binned, b, scipp::span<const T>(x, n), scipp::span<const I>(a, n)); }
#define CHUNKV(C, S, T, IS, I) \
  ENTRY void chunkv_##C##_##S##_##IS(T *out, T *outv, int64_t nout, int64_t *bins, int64_t nbin, const T *x, const T *xv, const I *a, int64_t n) { \
    ValueAndVariance<scipp::span<T>> binned{scipp::span<T>(out, nout), scipp::span<T>(outv, nout)}; scipp::span<scipp::index> b(bins, nbin); \
    el::map_to_bins_chunkwise<C>(binned, b, ValueAndVariance<scipp::span<const T>>{scipp::span<const T>(x, n), scipp::span<const T>(xv, n)}, scipp::span<const I>(a, n)); }
CHUNK(1, d, double, l, int64_t) CHUNK(2, d, double, l, int64_t) CHUNK(4, i, int32_t, i, int32_t) CHUNK(2, l, int64_t, i, int32_t) CHUNKV(2, d, double, l, int64_t) CHUNKV(4, f, float, i, int32_t) CHUNK(1024, d, double, l, int64_t)
#define UPD(S, I) ENTRY I upd_existing_##S(I index, int64_t bin, int64_t nbin) { el::update_indices_from_existing(index, bin, nbin); return index; }
UPD(l, int64_t) UPD(i, int32_t)
#define GRP(S, I, X, O) ENTRY I upd_contig_##S(I index, X x, int64_t ngroup, O offset) { el::update_indices_by_grouping_contiguous(index, x, ngroup, offset); return index; }
GRP(lll, int64_t, int64_t, int64_t) GRP(ill, int32_t, int64_t, int64_t) GRP(lli, int64_t, int64_t, int32_t) GRP(ili, int32_t, int64_t, int32_t) GRP(lii, int64_t, int32_t, int32_t) GRP(iii, int32_t, int32_t, int32_t) GRP(iil, int32_t, int32_t, int64_t)
#define EDGE(S, X, E) \
  ENTRY void begin_edge_##S(int64_t bin, X x, const E *e, int64_t n, int64_t *o) { int64_t index = 0; el::begin_edge(bin, index, x, scipp::span<const E>(e, n)); o[0] = bin; o[1] = index; } \
  ENTRY void end_edge_##S(int64_t bin, X x, const E *e, int64_t n, int64_t *o) { int64_t index = 0; el::end_edge(bin, index, x, scipp::span<const E>(e, n)); o[0] = bin; o[1] = index; }
EDGE(dd, double, double) EDGE(df, double, float) EDGE(ff, float, float) EDGE(ll, int64_t, int64_t) EDGE(ii, int32_t, int32_t) EDGE(il, int32_t, int64_t) EDGE(di, double, int32_t) EDGE(fd, float, double)
#include "verif_map.h"
