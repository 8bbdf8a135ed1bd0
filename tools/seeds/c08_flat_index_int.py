PROPERTY="C08"
EDITS=[("lib/common/include/scipp/common/index_composition.h","      const scipp::index aux = flat_index / *shape_it;","      const int32_t aux = static_cast<int32_t>(flat_index / *shape_it);")]
NEEDS="flat position whose quotient by the fastest extent exceeds 2^31"
BREAKS="decomposition of large flat positions gives a wrong index tuple"
DEMO=r'''
#include "scipp/common/index_composition.h"
#include <cstdio>
int main() {
  const scipp::index shape[3] = {2, 3000000000LL, 5};
  scipp::index idx[3];
  const scipp::index I = 1 + 2 * (2500000000LL + 3000000000LL * 4);
  scipp::extract_indices(I, shape, shape + 3, idx);
  return !(idx[0] == 1 && idx[1] == 2500000000LL && idx[2] == 4);
}
'''
