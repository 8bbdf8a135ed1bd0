PROPERTY="C15"
EDITS=[("lib/core/include/scipp/core/element/bin.h","""                 if (it == edges.begin() || it == edges.end()) {
                   index = -1;""","""                 if (index == 0 && edges.back() == x)
                   --it; // close the range
                 if (it == edges.begin() || it == edges.end()) {
                   index = -1;""")]
NEEDS="unevenly spaced edges, a coordinate exactly on the last edge, and an event in the first outer bin"
BREAKS="coordinates on the last edge are put into the last bin although it is half-open"
DEMO=r'''
#include "scipp/common/span.h"
#include "scipp/core/element/bin.h"
#include <vector>
int main() {
  using namespace scipp;
  std::vector<double> e{0, 1, 4};
  auto f = [&](int64_t i, double x) { core::element::update_indices_by_binning_sorted_edges(i, x, scipp::span<const double>(e.data(), 3)); return i; };
  if (f(0, 0) != 0 || f(0, 1.5) != 1 || f(1, 1.5) != 3 || f(-1, 1.5) != -1 || f(1, 4) != -1 || f(0, 5) != -1) return 2;
  return f(0, 4) != -1;
}
'''
