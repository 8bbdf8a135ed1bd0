PROPERTY="C09"
EDITS=[("lib/core/include/scipp/core/element_array.h","""    m_data = std::move(other.m_data);
    m_size = other.m_size;
    other.m_size = -1;
    return *this;""","""    std::swap(m_data, other.m_data);
    std::swap(m_size, other.m_size);
    return *this;""")]
NEEDS="moving a buffer onto one that already holds elements"
BREAKS="the source of the move keeps the target's old elements instead of being empty"
DEMO=r'''
#include <stdexcept>
#include "scipp/core/element_array.h"
int main() {
  using scipp::core::element_array;
  element_array<double> a{1.0, 2.0}, b{3.0};
  b = std::move(a);
  return static_cast<bool>(a);
}
'''
