PROPERTY="C14"
EDITS=[("lib/common/include/scipp/common/numeric.h","                      (std::abs(range.front()) + std::abs(range.back())) * ulp;","                      (std::abs(range.front()) + std::abs(range.back())) * ulp *\n                      (scipp::size(range) > 64 ? 1 << 20 : 1);")]
NEEDS="a floating-point range of more than 64 elements with one step off by more than rounding"
BREAKS="long uneven ranges are reported as linearly spaced"
DEMO=r'''
#include "scipp/common/numeric.h"
#include <vector>
int main() {
  for (int n : {5, 200}) {
    std::vector<double> x(n);
    for (int i = 0; i < n; ++i) x[i] = i;
    if (!scipp::numeric::islinspace(x)) return 2;
    x[2] += 1e-9;
    if (scipp::numeric::islinspace(x)) return 1;
  }
  return 0;
}
'''
