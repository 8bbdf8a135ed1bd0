PROPERTY="C09"
EDITS=[("lib/core/include/scipp/core/element_array.h","""    return *this = element_array(other);""","""    if (!*this || other.size() > size())
      return *this = element_array(other);
    std::copy(other.begin(), other.end(), data()); // fits, reuse the buffer
    m_size = std::max(other.size(), scipp::index{0});
    return *this;""")]
NEEDS="assigning a buffer that was never given a size to one that holds elements"
BREAKS="the target becomes an empty buffer instead of one without a size"
DEMO=r'''
#include <stdexcept>
#include "scipp/core/element_array.h"
int main() {
  using scipp::core::element_array;
  element_array<double> a{1.0, 2.0}, none;
  a = none;
  return static_cast<bool>(a);
}
'''
