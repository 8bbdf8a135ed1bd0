PROPERTY="C20"
EDITS=[("lib/core/include/scipp/core/element/cumulative.h","      x = sum - x;","      x = static_cast<std::decay_t<decltype(x)>>(static_cast<float>(sum - x));")]
NEEDS="running sums that are not representable in single precision"
BREAKS="exclusive running sum is rounded to float"
DEMO=r'''
#include "scipp/core/element/cumulative.h"
int main() {
  using namespace scipp::core::element;
  int64_t s = 0, x[3] = {16777216, 1, 5};
  for (auto &v : x) exclusive_scan(s, v);
  return !(x[0] == 0 && x[1] == 16777216 && x[2] == 16777217);
}
'''
