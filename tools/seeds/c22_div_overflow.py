PROPERTY="C22"
EDITS=[("lib/units/unit.cpp","if (llnl::units::divides_overflows(a.underlying(), b.underlying()))","if (llnl::units::times_overflows(a.underlying(), b.underlying()))")]
NEEDS="a division whose quotient is not representable although the product of the units is"
BREAKS="a unit that cannot be represented is returned instead of being refused"
DEMO=r'''
#include "scipp/units/unit.h"
// the unit library is not installed: exponents of metre within -8..7, as in the real one
namespace llnl::units {
static bool fits(int x) { return x >= -8 && x < 8; }
bool precise_unit::operator==(const precise_unit &o) const { return is_exactly_the_same(o); }
bool times_overflows(const precise_unit &a, const precise_unit &b) { return !fits(a.base_units().meter() + b.base_units().meter()); }
bool divides_overflows(const precise_unit &a, const precise_unit &b) { return !fits(a.base_units().meter() - b.base_units().meter()); }
std::string to_string(const precise_unit &, std::uint64_t) { return "u"; }
precise_unit unit_from_string(std::string, std::uint64_t) { return precise::K; }
bool is_valid(const precise_unit &) { return true; }
namespace precise::custom { bool is_custom_unit(const detail::unit_data &) { return false; } bool is_custom_count_unit(const detail::unit_data &) { return false; } unsigned short custom_count_unit_number(const detail::unit_data &) { return 1; } }
}
int main() {
  using namespace scipp::units;
  const Unit m4 = m * m * m * m, per_m4 = one / m4;
  if (m4 * per_m4 != one) return 1;
  try { m4 / per_m4; } catch (const std::exception &) { return 0; }
  return 1;
}
'''
SOURCES="units/unit units/except"
