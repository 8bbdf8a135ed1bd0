PROPERTY="C17"
EDITS=[("lib/core/include/scipp/core/element/histogram.h","          auto it = std::upper_bound(edges.begin(), edges.end(), x);\n","          auto it = std::upper_bound(edges.begin(), edges.end(), x);\n          if (it == edges.end() && !(edges.back() < x))\n            it = edges.begin() + (scipp::size(edges) - 1);\n")]
NEEDS="unevenly spaced edges and an event exactly at the last edge"
BREAKS="an event at the last edge, outside the half-open last bin, is counted there"
DEMO=r'''
#include "scipp/common/span.h"
#include "core/except.cpp"
#include "scipp/core/element/histogram.h"
int main() {
  using namespace scipp;
  double x[2] = {1.5, 4}, w[2] = {1, 10}, e[3] = {0, 1, 4}, d[2];
  core::element::histogram(scipp::span<double>(d, 2), scipp::span<const double>(x, 2), scipp::span<const double>(w, 2), scipp::span<const double>(e, 3));
  return !(d[0] == 0 && d[1] == 1);
}
'''
