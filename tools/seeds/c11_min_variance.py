PROPERTY="C11"
EDITS=[("lib/core/include/scipp/core/value_and_variance.h","  return a.value < b.value ? a : b;","  return a.value < b.value\n             ? a\n             : ValueAndVariance<T>{b.value, a.value == b.value && b.variance < a.variance ? a.variance : b.variance};")]
NEEDS="minimum of two operands where the second is zero of the other sign"
BREAKS="the selected minimum can mix the value of one operand with the variance of the other"
DEMO=r'''
#include "scipp/core/value_and_variance.h"
#include <cmath>
int main() {
  using V = scipp::ValueAndVariance<double>;
  const auto r = min(V{0.0, 5.0}, V{-0.0, 1.0});
  return !(std::signbit(r.value) ? r.variance == 1.0 : r.variance == 5.0);
}
'''
