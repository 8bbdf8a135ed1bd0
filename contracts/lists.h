// Runs an operation on a dimension list and reports the list afterwards: labels, lengths, count and whether it was refused.
#pragma once
#include "dims.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "core/string.cpp"
#include "units/dim.cpp"
using namespace scipp;
using namespace scipp::core;
namespace {
inline Dim D(uint16_t x) { return Dim(static_cast<Dim::Id>(x)); }
inline int64_t dump(const Sizes &d, uint16_t *ol, int64_t *os) {
  int64_t i = 0;
  for (const auto dim : d.labels()) ol[i++] = static_cast<uint16_t>(dim.id());
  int64_t j = 0;
  for (const auto size : d.sizes()) os[j++] = size;
  return i == j && i == d.size() ? i : -1;
}
// 0: done, 1: DimensionError, 2: SliceError, 3: any other refusal
template <class F> int guarded(F &&f) {
  try { f(); return 0; }
  catch (const except::DimensionError &) { return 1; }
  catch (const except::SliceError &) { return 2; }
  catch (...) { return 3; }
}
template <int N> struct Labels { Dim d[N + 1]; explicit Labels(const uint16_t *l) { for (int i = 0; i < N; ++i) d[i] = D(l[i]); } operator scipp::span<const Dim>() const { return scipp::span<const Dim>(d, d + N); } };
} // namespace
