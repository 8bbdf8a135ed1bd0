PROPERTY="C15"
EDITS=[("lib/core/include/scipp/core/element/event_operations.h","""                 auto it = std::upper_bound(edges.begin(), edges.end(), coord);
                 return (it == edges.end() || it == edges.begin())
                            ? fill
                            : get(weights, --it - edges.begin());""","""                 auto it = std::lower_bound(edges.begin(), edges.end(), coord);
                 if (it != edges.end() && *it == coord)
                   ++it;
                 return (it == edges.end() || it == edges.begin())
                            ? fill
                            : get(weights, --it - edges.begin());""")]
NEEDS="a coordinate equal to an edge that occurs more than once (bins of zero width)"
BREAKS="the coordinate is looked up in an empty bin of zero width that does not enclose it"
DEMO=r'''
#include "scipp/common/span.h"
#include "scipp/core/element/event_operations.h"
#include <vector>
int main() {
  using namespace scipp;
  std::vector<double> e{0, 1, 1, 1, 2};
  std::vector<double> w{1, 2, 3, 4};
  auto f = [&](double x) { return core::element::event::map_sorted_edges(x, scipp::span<const double>(e.data(), 5), scipp::span<const double>(w.data(), 4), -1.0); };
  if (f(0.5) != 1 || f(0) != 1 || f(1.5) != 4 || f(2) != -1 || f(-1) != -1) return 2;
  return f(1.0) != 4;
}
'''
