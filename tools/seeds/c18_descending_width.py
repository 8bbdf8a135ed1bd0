PROPERTY="C18"
EDITS=[("lib/core/include/scipp/core/element/rebin.h","          const auto owidth = std::abs(xo_high - xo_low);","          const auto owidth = xo_high - xo_low;")]
NEEDS="descending edges"
BREAKS="the width of an old bin is negative for descending edges, contents change sign"
DEMO=r'''
#include "scipp/common/span.h"
#include "scipp/core/element/rebin.h"
struct G { template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept { return a > b; } };
int main() {
  using namespace scipp;
  double xo[3] = {4, 2, 0}, xn[3] = {4, 1, 0}, s[2] = {10, 20}, d[2] = {0, 0};
  core::element::rebin<G>(scipp::span<double>(d, 2), scipp::span<const double>(xn, 3), scipp::span<const double>(s, 2), scipp::span<const double>(xo, 3));
  return !(d[0] == 20 && d[1] == 10);
}
'''
