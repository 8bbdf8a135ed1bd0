PROPERTY="C01"
EDITS=[("lib/units/dim.cpp","""  const std::shared_lock read_lock(mutex);
  for (const auto &item : custom_ids())
    if (item.second == m_id)
      return item.first;""","""  const auto end = [] {
    const std::shared_lock read_lock(mutex);
    return custom_ids().end();
  }();
  for (auto item = custom_ids().begin(); item != end; ++item)
    if (item->second == m_id)
      return item->first;""")]
NEEDS="a thread that reads a name while another one creates a dimension with a new label"
BREAKS="the table is traversed while it is changed; the name is not found or the program crashes"
DEMO=r'''
#include "scipp/units/dim.h"
#include <string>
#include <thread>
#include <vector>
int main() {
  using scipp::units::Dim;
  const Dim d("first");
  bool wrong = false;
  std::thread writer([] { for (int i = 0; i < 60000; ++i) Dim("label" + std::to_string(i)); });
  std::thread reader([&] { for (int i = 0; i < 300; ++i) wrong |= d.name() != "first"; });
  writer.join(); reader.join();
  return wrong;
}
'''
SOURCES="units/dim"
LIBS="-pthread -fsanitize=thread"
