PROPERTY="C20"
EDITS=[("lib/core/include/scipp/core/time_point.h","    return time_point{a + b.time_since_epoch()};","    return time_point{static_cast<int64_t>(static_cast<double>(a) +\n                                           b.time_since_epoch())};")]
NEEDS="integer offset on the left and a time point beyond 2^53"
BREAKS="offset + time is rounded to double precision"
DEMO=r'''
#include "scipp/core/time_point.h"
int main() {
  using scipp::core::time_point;
  const time_point t{1700000000123456789LL};
  return !(int64_t{1} + t == t + int64_t{1} && (int64_t{1} + t) - t == 1);
}
'''
