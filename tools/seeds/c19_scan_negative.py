PROPERTY="C19"
EDITS=[("lib/core/subbin_sizes.cpp","    const auto prev = delta + i >= osize ? 0 : m_sizes[delta + i];","    const auto prev = i >= osize ? 0 : m_sizes[std::min(delta + i, osize - 1)];")]
NEEDS="an accumulant that ends before the next block, and starts before it"
BREAKS="the running count of positions behind the accumulant's end is taken from its last position instead of zero"
DEMO=r'''
#include "core/subbin_sizes.cpp"
int main() {
  using namespace scipp::core;
  SubbinSizes sum(0, {1, 2, 3}), x(1, {10, 20, 30});
  sum.exclusive_scan(x);
  return !(sum == SubbinSizes(1, {12, 23, 30}) && x == SubbinSizes(1, {2, 3, 0}));
}
'''
