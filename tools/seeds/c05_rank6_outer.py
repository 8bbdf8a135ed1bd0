SOURCES="core/sizes core/dimensions core/strides core/slice core/except core/string core/view_index core/element_array_view core/multi_index units/dim"
PROPERTY="C05"
EDITS=[("lib/core/include/scipp/core/view_index.h","(d < NDIM_OP_MAX - 1) && (m_coord[d] == m_shape[d])","(d + 2 < NDIM_OP_MAX) && (m_coord[d] == m_shape[d])")]
NEEDS="a 6-D view none of whose dimensions can be merged, stepped past the end of the five inner dimensions"
BREAKS="walking a 6-D strided view does not advance the outermost dimension"
DEMO=r'''
#include "scipp/core/view_index.h"
using namespace scipp; using namespace scipp::core;
int main() {
  Dimensions d; for (int i = 0; i < 6; ++i) d.addInner(Dim(static_cast<Dim::Id>(1000 + i)), 2);
  const Strides s(std::vector<scipp::index>{1, 2, 4, 8, 16, 32});
  ViewIndex v(d, s), w(d, s);
  for (int p = 0; p < 64; ++p) { w.set_index(p); if (v.get() != w.get()) return 1; v.increment(); }
  return 0;
}
'''
