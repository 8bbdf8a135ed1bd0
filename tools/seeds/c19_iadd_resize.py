PROPERTY="C19"
EDITS=[("lib/core/subbin_sizes.cpp","  if (length > scipp::size(sizes()))\n    m_sizes.resize(length);","  if (scipp::size(other.sizes()) > scipp::size(sizes()))\n    m_sizes.resize(length);"),
 ("lib/core/subbin_sizes.cpp","  for (const auto &x : other.sizes())\n    m_sizes[current++] += x;\n  return *this;","  for (const auto &x : other.sizes()) {\n    if (current == scipp::size(sizes()))\n      break;\n    m_sizes[current++] += x;\n  }\n  return *this;")]
NEEDS="adding a block that is not longer, but reaches beyond the end of the accumulator"
BREAKS="the counts beyond the end of the left operand are lost"
DEMO=r'''
#include "core/subbin_sizes.cpp"
int main() {
  using namespace scipp::core;
  SubbinSizes a(0, {1, 2, 3}), b(2, {10, 20});
  a += b;
  return !(a == SubbinSizes(0, {1, 2, 13, 20}));
}
'''
