PROPERTY="C07"
SOURCES="core/sizes core/dimensions core/strides core/slice core/except core/string core/view_index core/element_array_view units/dim"
EDITS=[("lib/core/include/scipp/core/element_array_view.h","    if (buffer() && buffer() == other.buffer())\n","    if (buffer() && data() == other.data())\n")]
NEEDS="two views into the same buffer that start at different offsets and share elements"
BREAKS="overlapping slices with different offsets are reported as not overlapping"
DEMO=r'''
#include "scipp/core/element_array_view.h"
using namespace scipp; using namespace scipp::core;
int main() {
  double x[32] = {}; const Dim X(static_cast<Dim::Id>(1000));
  Dimensions a; a.addInner(X, 4);
  const Strides s(std::vector<scipp::index>{1});
  return !ElementArrayView<double>(x, 0, a, s).overlaps(ElementArrayView<double>(x, 2, a, s));
}
'''
