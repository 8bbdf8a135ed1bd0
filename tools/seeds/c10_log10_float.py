PROPERTY="C10"
EDITS=[("lib/core/include/scipp/core/value_and_variance.h","""  return ValueAndVariance{a.value - b.value, a.variance + b.variance};
}
template <class T1, class T2>
constexpr auto operator*""","""  if constexpr (!std::is_same_v<T1, T2>)
    return ValueAndVariance{a.value - b.value,
                            a.variance + b.variance * (a.value >= b.value)};
  else
    return ValueAndVariance{a.value - b.value, a.variance + b.variance};
}
template <class T1, class T2>
constexpr auto operator*""")]
NEEDS="difference of operands of different precision with a negative result"
BREAKS="variance of the subtrahend is dropped for mixed-precision differences below zero"
DEMO=r'''
#include "scipp/core/value_and_variance.h"
int main() {
  scipp::ValueAndVariance<double> a{1.0, 0.5};
  scipp::ValueAndVariance<float> b{2.0f, 0.25f};
  return !((a - b).variance == 0.75 && (b - a).variance == 0.75);
}
'''
