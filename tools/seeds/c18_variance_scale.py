PROPERTY="C18"
EDITS=[("lib/core/include/scipp/core/element/rebin.h","            data_new.variance[inew] += data_old.variance[iold] * scale;","            data_new.variance[inew] += data_old.variance[iold] * scale * scale;")]
NEEDS="data with variances and a partial overlap"
BREAKS="variances are scaled with the square of the overlap fraction, totals of variances are not conserved"
DEMO=r'''
#include "scipp/common/span.h"
#include "scipp/core/element/rebin.h"
struct Less { template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept { return a < b; } };
int main() {
  using namespace scipp; using namespace scipp::core;
  double xo[2] = {0, 4}, xn[3] = {0, 1, 4}, s[1] = {16}, v[1] = {8}, d[2], dv[2];
  element::rebin<Less>(ValueAndVariance<scipp::span<double>>{scipp::span<double>(d, 2), scipp::span<double>(dv, 2)}, scipp::span<const double>(xn, 3),
    ValueAndVariance<scipp::span<const double>>{scipp::span<const double>(s, 1), scipp::span<const double>(v, 1)}, scipp::span<const double>(xo, 2));
  return !(d[0] == 4 && d[1] == 12 && dv[0] == 2 && dv[1] == 6);
}
'''
