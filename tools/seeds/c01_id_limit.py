PROPERTY="C01"
EDITS=[("lib/units/dim.cpp","  if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())","  if (id - 1 > std::numeric_limits<std::underlying_type<Id>::type>::max())")]
NEEDS="as many labels as there are ids, and one more"
BREAKS="the last label gets the id of a built-in dimension instead of being refused"
DEMO=r'''
#include "scipp/units/dim.h"
#include <string>
int main() {
  using scipp::units::Dim;
  try {
    for (int i = 0; i < 70000; ++i)
      if (Dim("label" + std::to_string(i)) == Dim::Invalid) return 1;
  } catch (const std::exception &) { return 0; }
  return 1;
}
'''
SOURCES="units/dim"
