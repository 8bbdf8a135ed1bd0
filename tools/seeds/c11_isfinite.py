PROPERTY="C11"
EDITS=[("lib/core/include/scipp/core/value_and_variance.h","  return isfinite(a.value);","  return isfinite(a.value) && isfinite(a.variance);")]
NEEDS="finite value with an infinite or NaN variance"
BREAKS="finiteness test looks at the variance"
DEMO=r'''
#include "scipp/core/value_and_variance.h"
#include <cmath>
int main() {
  using V = scipp::ValueAndVariance<double>;
  return !(isfinite(V{1.0, INFINITY}) && isfinite(V{1.0, (double)NAN}) && !isfinite(V{INFINITY, 1.0}));
}
'''
