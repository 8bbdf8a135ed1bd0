PROPERTY="C17"
EDITS=[("lib/core/include/scipp/core/element/histogram.h","    x1.variance[i1] += x2.variance[i2];","    x1.variance[i1] += x2.variance[i2] == x2.value[i2] ? x2.variance[i2] : x2.variance[i2] * x2.value[i2];")]
NEEDS="weights with variances other than 1 or equal to the weight"
BREAKS="variance of a bin is not the sum of the variances of its events"
DEMO=r'''
#include "scipp/common/span.h"
#include "core/except.cpp"
#include "scipp/core/element/histogram.h"
int main() {
  using namespace scipp; using namespace scipp::core;
  double x[2] = {0.5, 0.5}, w[2] = {1, 3}, v[2] = {2, 5}, e[3] = {0, 1, 2}, d[2], dv[2];
  element::histogram(ValueAndVariance<scipp::span<double>>{scipp::span<double>(d, 2), scipp::span<double>(dv, 2)}, scipp::span<const double>(x, 2),
    ValueAndVariance<scipp::span<const double>>{scipp::span<const double>(w, 2), scipp::span<const double>(v, 2)}, scipp::span<const double>(e, 3));
  return !(d[0] == 4 && dv[0] == 7 && d[1] == 0 && dv[1] == 0);
}
'''
