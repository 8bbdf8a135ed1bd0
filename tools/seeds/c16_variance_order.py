PROPERTY="C16"
EDITS=[("lib/core/include/scipp/core/element/map_to_bins.h","      binned.variance[bins[i_bin]] = data.variance[i];\n      binned.value[bins[i_bin]++] = data.value[i];","      binned.value[bins[i_bin]++] = data.value[i];\n      binned.variance[bins[i_bin] - (i > 0 ? 1 : 0)] = data.variance[i];")]
NEEDS="events with variances, the first event having a bin"
BREAKS="the variance of the first event is written behind its value"
DEMO=r'''
#include "scipp/common/span.h"
#include "core/subbin_sizes.cpp"
#include "scipp/core/element/map_to_bins.h"
int main() {
  using namespace scipp; using namespace scipp::core;
  double x[2] = {1, 2}, v[2] = {3, 4}, o[2] = {0, 0}, ov[2] = {0, 0}; int64_t ix[2] = {1, 0}, b[2] = {0, 1};
  ValueAndVariance<scipp::span<double>> out{scipp::span<double>(o, 2), scipp::span<double>(ov, 2)};
  scipp::span<scipp::index> bins(b, 2);
  element::map_to_bins_direct(out, bins, ValueAndVariance<scipp::span<const double>>{scipp::span<const double>(x, 2), scipp::span<const double>(v, 2)}, scipp::span<const int64_t>(ix, 2));
  return !(o[0] == 2 && o[1] == 1 && ov[0] == 4 && ov[1] == 3);
}
'''
