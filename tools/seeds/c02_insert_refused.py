PROPERTY="C02"
EDITS=[("lib/core/sizes.cpp","""  expectUnique(*this, key);
  m_keys.insert(m_keys.begin(), key);
  m_values.insert(m_values.begin(), value);""","""  m_values.insert(m_values.begin(), value);
  expectUnique(*this, key);
  m_keys.insert(m_keys.begin(), key);""")]
NEEDS="adding an outer dimension whose label is already present, catching the refusal and using the list afterwards"
BREAKS="a refused addition shifts every length by one position"
DEMO=r'''
#include "scipp/core/dimensions.h"
int main() {
  using namespace scipp;
  core::Dimensions d(units::Dim::X, 2);
  d.addInner(units::Dim::Y, 3);
  try { d.add(units::Dim::Y, 7); } catch (const std::exception &) {}
  return !(d[units::Dim::X] == 2 && d[units::Dim::Y] == 3);
}
'''
SOURCES="core/sizes core/dimensions core/slice core/except units/dim units/except"
