SOURCES="core/sizes core/dimensions core/strides core/slice core/except core/string core/view_index core/element_array_view core/multi_index units/dim"
PROPERTY="C05"
EDITS=[("lib/core/include/scipp/core/element_array_view.h","    if (delta == 1)\n      increment();\n    else\n","    if (delta == 1)\n      increment();\n    else if (delta > 1 && m_index.skip_inner(delta))\n      return;\n    else\n"),
("lib/core/include/scipp/core/view_index.h","  void set_index(const scipp::index index) noexcept {\n    m_view_index = index;","  /// Advance by more than one element if this does not leave the inner run.\n  bool skip_inner(const scipp::index delta) noexcept {\n    if (m_coord[0] + delta > m_shape[0])\n      return false;\n    m_memory_index += delta * m_delta[0];\n    m_coord[0] += delta;\n    m_view_index += delta;\n    return true;\n  }\n\n  void set_index(const scipp::index index) noexcept {\n    m_view_index = index;")]
NEEDS="advancing an iterator by more than one so that it lands exactly on the first element of the next inner run"
BREAKS="the iterator stays at one past the end of the inner run and the next steps read outside of the view"
DEMO=r'''
#include "scipp/core/element_array_view.h"
#include <vector>
#include <numeric>
using namespace scipp; using namespace scipp::core;
int main() {
  std::vector<double> x(64); std::iota(x.begin(), x.end(), 0.0);
  Dimensions d; d.addInner(Dim(static_cast<Dim::Id>(1000)), 3); d.addInner(Dim(static_cast<Dim::Id>(1001)), 4);
  ElementArrayView<double> v(x.data(), 0, d, Strides(std::vector<scipp::index>{10, 1}));
  auto it = v.begin(); it += 2; it += 2;
  return !(*it == 10.0 && *(++it) == 11.0);
}
'''
