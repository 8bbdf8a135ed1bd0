PROPERTY="C07"
SOURCES="core/sizes core/dimensions core/strides core/slice core/except core/string core/view_index core/element_array_view units/dim"
EDITS=[("lib/core/element_array_view.cpp","  if (m_offset == other.m_offset && m_iterDims == other.m_iterDims &&\n      m_strides == other.m_strides) {","  if (m_offset == other.m_offset && size() == other.size() &&\n      m_strides == other.m_strides) {")]
NEEDS="two views of one buffer with the same offset, strides and number of elements, but different shapes, e.g. 2x3 and 3x2"
BREAKS="views that share elements are reported as not overlapping"
DEMO=r'''
#include "scipp/core/element_array_view.h"
using namespace scipp; using namespace scipp::core;
int main() {
  double x[32] = {}; const Dim X(static_cast<Dim::Id>(1000)), Y(static_cast<Dim::Id>(1001));
  Dimensions a, b; a.addInner(X, 2); a.addInner(Y, 3); b.addInner(X, 3); b.addInner(Y, 2);
  const Strides s(std::vector<scipp::index>{4, 1});
  return !ElementArrayView<double>(x, 0, a, s).overlaps(ElementArrayView<double>(x, 0, b, s));
}
'''
