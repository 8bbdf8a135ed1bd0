SOURCES="core/sizes core/dimensions core/strides core/slice core/except core/string core/view_index core/element_array_view core/multi_index units/dim"
PROPERTY="C06"
EDITS=[("lib/core/include/scipp/core/multi_index.h","        zero_out_coords(m_inner_ndim - 1);\n","        zero_out_coords(m_inner_ndim > 4 ? 4 : m_inner_ndim - 1);\n")]
NEEDS="a traversal that can not be merged to fewer than six dimensions, end() taken from an index that stands at a late position"
BREAKS="end() leaves a stale coordinate and the traversal never compares equal to its end"
DEMO=r'''
#include "scipp/core/multi_index.h"
#include <vector>
using namespace scipp; using namespace scipp::core;
int main() {
  Dimensions d; std::vector<scipp::index> s; for (int i = 0; i < 6; ++i) { d.addInner(Dim(static_cast<Dim::Id>(1000 + i)), 2); s.push_back(1 << i); }
  MultiIndex<1> m(d, Strides(s));
  m.set_index(63); auto e = m.end(); m.increment();
  return !(m == e && m.begin() != e);
}
'''
