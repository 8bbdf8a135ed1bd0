PROPERTY="C03"
EDITS=[("lib/core/slice.cpp","if (end_ != -1 && begin_ > end_)","if (end_ >= 0 && begin_ > end_)")]
NEEDS="a range whose end is below -1"
BREAKS="a slice with end before begin is accepted"
DEMO=r'''
#include "scipp/core/slice.h"
int main() {
  using namespace scipp;
  try { core::Slice s(units::Dim::X, 3, -2); } catch (const std::exception &) { return 0; }
  return 1;
}
'''
SOURCES="core/sizes core/dimensions core/slice core/except units/dim units/except"
