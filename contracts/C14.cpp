// Contracts: recognition of evenly spaced ranges.
#include "verif.h"
#include "scipp/common/numeric.h"
#include "scipp/common/span.h"
#include "scipp/core/element/util.h"
using namespace scipp;
namespace el = scipp::core::element;
#define LIN(S, T) ENTRY bool islinspace_##S(const T *a, int64_t n) { return el::islinspace(scipp::span<const T>(a, n)); }
LIN(d, double) LIN(f, float) LIN(l, int64_t) LIN(i, int32_t)
ENTRY bool islinspace_t(const int64_t *a, int64_t n) { return el::islinspace(scipp::span<const core::time_point>(reinterpret_cast<const core::time_point *>(a), n)); }
ENTRY bool isarange_l(const int64_t *a, int64_t n) { return el::isarange(scipp::span<const int64_t>(a, n)); }
ENTRY bool isarange_i(const int32_t *a, int64_t n) { return el::isarange(scipp::span<const int32_t>(a, n)); }
#define SRT(OP, S, T) ENTRY bool OP##_##S(bool acc, T a, T b) { el::OP(acc, a, b); return acc; }
#define SRTS(OP) SRT(OP, l, int64_t) SRT(OP, i, int32_t) SRT(OP, d, double)
SRTS(issorted_nondescending) SRTS(issorted_nonascending)
