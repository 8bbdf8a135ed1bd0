PROPERTY="C24"
EDITS=[("lib/core/include/scipp/core/dict.h","""    if (m_container.get().data() != m_base_address ||
        m_container.get().size() != m_size) {""","""    if (m_container.get().data() != m_base_address ||
        m_container.get().size() < m_size) {""")]
NEEDS="inserting during iteration into a collection with spare capacity"
BREAKS="the change of size is not noticed"
DEMO=r'''
#include "scipp/core/dict.h"
namespace scipp::core { template <class It> std::string dict_keys_to_string(It, It, const std::string_view &) { return {}; } }
int main() {
  scipp::core::Dict<int, double> d;
  d.reserve(4);
  d.insert_or_assign(1, 10.0);
  auto it = d.begin();
  d.insert_or_assign(2, 20.0);
  try { ++it; } catch (const std::exception &) { return 0; }
  return 1;
}
'''
