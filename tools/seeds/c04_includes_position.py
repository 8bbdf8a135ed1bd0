PROPERTY="C04"
EDITS=[("lib/core/sizes.cpp","""  return std::all_of(sizes.begin(), sizes.end(), [&](const auto &dim) {
    return contains(dim) && at(dim) == sizes[dim];
  });""","""  if (size() == sizes.size() &&
      std::is_permutation(begin(), end(), sizes.begin()))
    return std::is_permutation(values().begin(), values().end(),
                               sizes.values().begin());
  return std::all_of(sizes.begin(), sizes.end(), [&](const auto &dim) {
    return contains(dim) && at(dim) == sizes[dim];
  });""")]
NEEDS="two lists with the same labels and the same lengths, but with lengths exchanged between labels"
BREAKS="inclusion is reported although the lengths of the labels differ"
DEMO=r'''
#include "scipp/core/sizes.h"
int main() {
  using namespace scipp;
  core::Sizes a, b;
  a.set(units::Dim::X, 2); a.set(units::Dim::Y, 3);
  b.set(units::Dim::X, 3); b.set(units::Dim::Y, 2);
  return a.includes(b);
}
'''
SOURCES="core/sizes core/dimensions core/slice core/except units/dim units/except"
