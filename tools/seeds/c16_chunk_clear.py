PROPERTY="C16"
EDITS=[("lib/core/include/scipp/core/element/map_to_bins.h","      vals.clear();\n      ind.clear();","      if (i < size || scipp::size(chunks) == 1)\n        ind.clear();\n      if (i_chunk + 1 < scipp::size(chunks) || scipp::size(chunks) == 1)\n        vals.clear();")]
NEEDS="several chunks of bins and more than eight events per bin, so that buffers are reused"
BREAKS="the buffer of the last chunk keeps events of the previous block, which are written again in place of later ones"
DEMO=r'''
#include "scipp/common/span.h"
#include "core/subbin_sizes.cpp"
#include "scipp/core/element/map_to_bins.h"
#include <vector>
int main() {
  using namespace scipp; using namespace scipp::core;
  const int n = 40;
  std::vector<double> x(n), o(n, -1); std::vector<int64_t> ix(n), b{0, 10, 20, 30};
  for (int i = 0; i < n; ++i) { x[i] = i; ix[i] = i % 4; }
  scipp::span<double> out(o.data(), n); scipp::span<scipp::index> bins(b.data(), 4);
  element::map_to_bins_chunkwise<2>(out, bins, scipp::span<const double>(x.data(), n), scipp::span<const int64_t>(ix.data(), n));
  for (int k = 0; k < 4; ++k) for (int j = 0; j < 10; ++j) if (o[10 * k + j] != 4 * j + k) return 1;
  return 0;
}
'''
