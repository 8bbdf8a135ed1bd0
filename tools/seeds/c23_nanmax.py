PROPERTY="C23"
EDITS=[("lib/core/include/scipp/core/element/comparison.h","""                 using std::max;
                 if (isnan(b))
                   a = b;
                 else if (!isnan(a))
                   a = max(a, b);""","""                 using std::max;
                 if (!(b <= a))
                   a = b;""")]
NEEDS="a running maximum that is already NaN followed by a number"
BREAKS="running maximum forgets a NaN seen earlier"
DEMO=r'''
#include "scipp/core/element/comparison.h"
#include <cmath>
int main() {
  using namespace scipp::core::element;
  double a = 1.0;
  for (double x : {3.0, (double)NAN, 2.0}) max_equals(a, x);
  return !std::isnan(a);
}
'''
