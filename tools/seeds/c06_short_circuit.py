SOURCES="core/sizes core/dimensions core/strides core/slice core/except core/string core/view_index core/element_array_view core/multi_index units/dim"
PROPERTY="C06"
EDITS=[("lib/core/multi_index.cpp","  const bool res =\n      ((value_or_default(strides, dim) == strides_for_contiguous[I]) && ...);\n  ((strides_for_contiguous[I] = size * value_or_default(strides, dim)), ...);\n  return res;","  return ((value_or_default(strides, dim) ==\n           std::exchange(strides_for_contiguous[I],\n                         size * value_or_default(strides, dim))) &&\n          ...);")]
NEEDS="two operands with at least four dimensions, the first broadcast in the innermost one, the second transposed in the two middle ones"
BREAKS="expected contiguous strides of later operands are stale after an earlier operand's mismatch, so dimensions are merged that are not contiguous and the second operand is read at wrong positions"
DEMO=r'''
#include "scipp/core/multi_index.h"
#include <vector>
using namespace scipp; using namespace scipp::core;
int main() {
  const scipp::index n[4] = {2, 3, 4, 2}; Dimensions d; for (int i = 0; i < 4; ++i) d.addInner(Dim(static_cast<Dim::Id>(1000 + i)), n[i]);
  const scipp::index a[4] = {12, 4, 1, 0}, b[4] = {24, 2, 6, 1};
  MultiIndex<2> m(d, Strides(scipp::span<const scipp::index>(a, 4)), Strides(scipp::span<const scipp::index>(b, 4)));
  scipp::index i[4];
  for (i[0] = 0; i[0] < 2; ++i[0]) for (i[1] = 0; i[1] < 3; ++i[1]) for (i[2] = 0; i[2] < 4; ++i[2]) for (i[3] = 0; i[3] < 2; ++i[3]) {
    scipp::index x = 0, y = 0; for (int k = 0; k < 4; ++k) { x += i[k] * a[k]; y += i[k] * b[k]; }
    if (m.get()[0] != x || m.get()[1] != y) return 1; m.increment(); }
  return 0;
}
'''
