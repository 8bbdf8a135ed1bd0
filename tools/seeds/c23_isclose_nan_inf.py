PROPERTY="C23"
EDITS=[("lib/core/include/scipp/core/element/comparison.h","      if (isinf(x) && isinf(y) && signbit(x) == signbit(y))","      if (isinf(x) && isinf(y) && (signbit(x) == signbit(y) || x < y))")]
NEEDS="two infinities of opposite signs or equal signs"
BREAKS="closeness of infinities does not look at their own signs"
DEMO=r'''
#include "scipp/core/element/comparison.h"
#include <cmath>
int main() {
  using namespace scipp::core::element;
  const double i = INFINITY;
  return !(isclose_equal_nan(i, i, 0.0) && isclose_equal_nan(-i, -i, 0.0) && !isclose_equal_nan(i, -i, 1.0) && !isclose_equal_nan(-i, i, 1.0));
}
'''
