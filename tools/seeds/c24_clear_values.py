PROPERTY="C24"
EDITS=[("lib/core/include/scipp/core/dict.h","""    m_keys.clear();
    m_values.clear();""","""    m_keys.clear(); // the keys determine the size""")]
NEEDS="clearing a collection and filling it again"
BREAKS="new keys are paired with the values from before"
DEMO=r'''
#include "scipp/core/dict.h"
namespace scipp::core { template <class It> std::string dict_keys_to_string(It, It, const std::string_view &) { return {}; } }
int main() {
  scipp::core::Dict<int, double> d;
  d.insert_or_assign(1, 10.0);
  d.clear();
  d.insert_or_assign(2, 20.0);
  return d[2] != 20.0;
}
'''
