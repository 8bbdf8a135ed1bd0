PROPERTY="C22"
EDITS=[("lib/core/include/scipp/core/element/comparison.h","""  expect::equals(x, y);
  expect::equals(x, t);
  return units::none;""","""  expect::equals(x, y);
  if (t != units::one) // relative tolerance
    expect::equals(x, t);
  return units::none;""")]
NEEDS="a dimensionless tolerance for quantities that have a unit"
BREAKS="the comparison is accepted although the units differ"
DEMO=r'''
#include "scipp/core/element/comparison.h"
namespace llnl::units { bool precise_unit::operator==(const precise_unit &o) const { return is_exactly_the_same(o); } }
namespace scipp::units { bool Unit::operator==(const Unit &o) const { return m_unit == o.m_unit; } bool Unit::operator!=(const Unit &o) const { return !(*this == o); } std::string Unit::name() const { return ""; } std::string to_string(const Unit &) { return ""; } }
int main() {
  using namespace scipp;
  try { core::element::isclose(units::m, units::m, units::one); } catch (const std::exception &) { return 0; }
  return 1;
}
'''
SOURCES="units/except core/except"
