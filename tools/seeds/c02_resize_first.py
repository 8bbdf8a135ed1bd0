PROPERTY="C02"
EDITS=[("lib/core/sizes.cpp","""  expect::validExtent(size);
  assign(dim, size);
}""","""  assign(dim, size);
  expect::validExtent(size);
}""")]
NEEDS="resizing a dimension to a negative length and using the list after the refusal"
BREAKS="the list keeps the refused negative length"
DEMO=r'''
#include "scipp/core/sizes.h"
int main() {
  using namespace scipp;
  core::Sizes s;
  s.set(units::Dim::X, 2);
  s.set(units::Dim::Y, 3);
  try { s.resize(units::Dim::Y, -4); } catch (const std::exception &) {}
  return s[units::Dim::Y] != 3;
}
'''
SOURCES="core/sizes core/dimensions core/slice core/except units/dim units/except"
