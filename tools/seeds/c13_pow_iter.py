PROPERTY="C13"
EDITS=[("lib/common/include/scipp/common/numeric.h","""  const auto aux = integer_pow_pos_exponent(base, exponent / 2);
  if (exponent % 2 == 0)
    return aux * aux;
  return base * aux * aux;
""","""  B result = 1;
  B square = base;
  for (E e = exponent; e > 0; e = (e & 31) == 17 ? e / 2 + 1 : e / 2) {
    if (e % 2 != 0)
      result *= square;
    square *= square;
  }
  return static_cast<B>(result);
""")]
NEEDS="an exponent one of whose halvings is 17 modulo 32"
BREAKS="wrong power for exponents such as 17"
DEMO=r'''
#include "scipp/common/numeric.h"
int main() {
  for (int64_t b : {2, 3, -3})
    for (int e = 0; e < 36; ++e) {
      int64_t x = 1;
      bool over = false;
      for (int i = 0; i < e; ++i) over |= __builtin_mul_overflow(x, b, &x);
      if (!over && scipp::numeric::pow(b, e) != x) return 1;
    }
  return 0;
}
'''
