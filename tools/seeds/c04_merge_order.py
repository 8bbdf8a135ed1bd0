PROPERTY="C04"
EDITS=[("lib/core/dimensions.cpp","""      if (a[dim] != b[dim])
        throw except::DimensionError(
            "Cannot merge dimensions with mismatching extent in '" +
            to_string(dim) + "': " + to_string(a) + " and " + to_string(b));
      while (it != end && *it != dim) {
        if (!a.contains(*it))
          out.addInner(*it, b[*it]);
        ++it;
      }
""","""      while (it != end && *it != dim) {
        if (!a.contains(*it))
          out.addInner(*it, b[*it]);
        ++it;
      }
      if (it != end && a[dim] != b[dim])
        throw except::DimensionError(
            "Cannot merge dimensions with mismatching extent in '" +
            to_string(dim) + "': " + to_string(a) + " and " + to_string(b));
""")]
NEEDS="operands with two labels in opposite order that disagree on the label that comes last in the first"
BREAKS="the disagreement goes unnoticed"
DEMO=r'''
#include "scipp/core/dimensions.h"
namespace scipp::core { std::string to_string(const Dimensions &) { return {}; } }
int main() {
  using namespace scipp;
  core::Dimensions a(units::Dim::X, 2), b(units::Dim::Y, 4);
  a.addInner(units::Dim::Y, 3);
  b.addInner(units::Dim::X, 2);
  try { merge(a, b); } catch (const std::exception &) { return 0; }
  return 1;
}
'''
SOURCES="core/sizes core/dimensions core/slice core/except units/dim units/except"
