// Contracts: labels and dimensions. k, j: identities of label texts (see label()); w, u: ghost, the ids handed out.
#include "verif.h"
#include <stdexcept>
#include "units/dim.cpp"
using scipp::units::Dim;
extern "C" {
// ghost statements: the id of a dimension; the end of an operation
void v_id(int64_t which, uint16_t id);
int v_done(int64_t result);
}
#ifdef VERIF_REPLAY
extern "C" { void v_id(int64_t, uint16_t) {} int v_done(int64_t) { return 1; } }
#endif
// the text with identity k
__attribute__((noinline)) std::string label(const int64_t k) {
  static const char *const names[] = {"<invalid>", "<none>", "<internal_structure_component>", "<internal_structure_row>", "<internal_structure_column>", "<internal_histogram>", "<internal_sort>", "<internal_accumulate>", "energy", "event", "group", "position", "row", "temperature", "time", "wavelength", "x", "y", "z"};
  return k >= 0 && k < 19 ? std::string(names[k]) : "label " + std::to_string(k);
}
__attribute__((noinline)) bool is_label(const std::string &s, const int64_t k) { return s == label(k); }
namespace {
template <class F> int guarded(F &&f) { try { f(); return 0; } catch (const std::runtime_error &) { return 1; } catch (...) { return 2; } }
} // namespace
ENTRY int create(int64_t k, int64_t *o) { const int r = guarded([&] { const Dim d(label(k)); o[0] = uint16_t(d.id()); }); o[1] = v_done(r); return r; }
ENTRY int again(int64_t k, int64_t *o) { const int r = guarded([&] { const Dim d(label(k)), e(label(k)); o[0] = d == e; o[2] = d != e; o[3] = d < e; }); o[1] = v_done(r); return r; }
ENTRY int two(int64_t k, int64_t j, int64_t *o) { const int r = guarded([&] { const Dim d(label(k)), e(label(j)); o[0] = d == e; o[2] = d != e; o[3] = d < e; o[4] = e < d; }); o[1] = v_done(r); return r; }
ENTRY int named(int64_t k, int64_t *o) { const int r = guarded([&] { const Dim d(label(k)); v_id(0, uint16_t(d.id())); const auto s = d.name(); o[0] = is_label(s, k); }); o[1] = v_done(r); return r; }
ENTRY int renamed(int64_t k, int64_t *o) { const int r = guarded([&] { const Dim d(label(k)); v_id(0, uint16_t(d.id())); const Dim e(d.name()); o[0] = d == e; }); o[1] = v_done(r); return r; }
ENTRY int shown(int64_t k, int64_t *o) { const int r = guarded([&] { const Dim d(label(k)); v_id(0, uint16_t(d.id())); const auto s = to_string(d); o[0] = is_label(s, k); }); o[1] = v_done(r); return r; }
ENTRY int builtin(int64_t k, int64_t *o) { const int r = guarded([&] { const Dim d(label(k)); const Dim::Id ids[] = {Dim::Invalid, Dim::None, Dim::InternalStructureComponent, Dim::InternalStructureRow, Dim::InternalStructureColumn, Dim::InternalHistogram, Dim::InternalSort, Dim::InternalAccumulate, Dim::Energy, Dim::Event, Dim::Group, Dim::Position, Dim::Row, Dim::Temperature, Dim::Time, Dim::Wavelength, Dim::X, Dim::Y, Dim::Z};
  o[0] = d == Dim(ids[k]) && d.id() == ids[k]; }); o[1] = v_done(r); return r; }
// replay only (proves nothing): a search for a schedule or history that exhibits a broken obligation
#ifdef VERIF_REPLAY
#include <atomic>
#include <set>
#include <thread>
#include <vector>
ENTRY int crowd(int64_t m, int64_t threads, int64_t *o) {
  const auto text = [&](const int64_t i) { return "crowd " + std::to_string(threads) + ' ' + std::to_string(m) + ' ' + std::to_string(i); };
  std::vector<std::vector<int>> ids(threads, std::vector<int>(m, -1));
  std::atomic<int64_t> at{0}, wrong{0}, running{threads};
  const Dim first(text(-1));
  std::vector<std::thread> pool;
  for (int64_t j = 0; j < threads; ++j)
    pool.emplace_back([&, j] {
      for (int64_t i = 0; i < m; ++i) {
        ++at;
        while (at < threads * (i + 1)) std::this_thread::yield(); // all threads ask for the same new label at once
        try { const Dim d(text(i)); ids[j][i] = uint16_t(d.id()); if (m > 1000) continue; if (i % 7 == j % 7 && d.name() != text(i)) ++wrong; if (first.name() != text(-1)) ++wrong; } catch (const std::runtime_error &) {}
      }
      --running;
    });
  for (auto &t : pool) t.join();
  std::set<int> seen;
  int64_t k = 0;
  for (int64_t i = 0; i < m; ++i) {
    for (int64_t j = 1; j < threads; ++j) wrong += ids[j][i] != ids[0][i];
    if (ids[0][i] >= 0) { seen.insert(ids[0][i]); ++k; wrong += ids[0][i] < 1000; }
  }
  o[0] = wrong + (k - int64_t(seen.size()));
  return 0;
}
#else
ENTRY int crowd(int64_t, int64_t, int64_t *o) { o[0] = 0; return 0; }
#endif
