PROPERTY="C03"
EDITS=[("lib/core/sizes.cpp","""    const auto remainder =
        (params.end() - params.begin()) % params.stride() != 0;
    sliced.resize(params.dim(),
                  std::max(scipp::index{0},
                           (params.end() - params.begin()) / params.stride() +
                               remainder));""","""    const auto length = params.end() - params.begin();
    sliced.resize(params.dim(),
                  std::max(scipp::index{0},
                           (length + params.stride() - 1) / params.stride()));""")]
NEEDS="a stride close to the largest index"
BREAKS="the rounding up overflows, so the slice has length 0 instead of 1"
DEMO=r'''
#include "scipp/core/sizes.h"
#include <cstdint>
int main() {
  using namespace scipp;
  core::Sizes s;
  s.set(units::Dim::X, 5);
  volatile scipp::index stride = INT64_MAX;
  return s.slice(core::Slice(units::Dim::X, 0, 5, stride))[units::Dim::X] != 1;
}
'''
SOURCES="core/sizes core/dimensions core/slice core/except units/dim units/except"
