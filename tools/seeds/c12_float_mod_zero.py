PROPERTY="C12"
EDITS=[("lib/common/include/scipp/common/numeric.h","    return b == 0 ? NAN : a - floor_divide(a, b) * b;","    if (b == 0)\n      return static_cast<std::common_type_t<T, U>>(NAN);\n    const auto r = a - static_cast<int64_t>(floor_divide(a, b)) * b;\n    return static_cast<std::common_type_t<T, U>>(r);")]
NEEDS="floating-point operands whose quotient does not fit in 64 bits"
BREAKS="remainder not complementary to the quotient for huge quotients"
DEMO=r'''
#include "scipp/common/numeric.h"
int main() {
  const double a = 0x1p80, b = 3.0;
  const double q = scipp::numeric::floor_divide(a, b), r = scipp::numeric::remainder(a, b);
  if (r != a - q * b) return 1;
  return !(scipp::numeric::remainder(-7.5, 2.0) == 0.5);
}
'''
