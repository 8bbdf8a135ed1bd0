// Builds dimension lists through the public interface.
#pragma once
#include "verif.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/strides.h"
namespace {
inline scipp::core::Dimensions make_dims(const int64_t *shape, int n, int first = 1000) {
  scipp::core::Dimensions d;
  for (int i = 0; i < n; ++i) d.addInner(scipp::Dim(static_cast<scipp::Dim::Id>(first + i)), shape[i]);
  return d;
}
inline scipp::core::Dimensions make_labelled(const uint16_t *l, const int64_t *shape, int n) {
  scipp::core::Dimensions d;
  for (int i = 0; i < n; ++i) d.addInner(scipp::Dim(static_cast<scipp::Dim::Id>(l[i])), shape[i]);
  return d;
}
inline scipp::core::Strides make_strides(const int64_t *s, int n) { return scipp::core::Strides(scipp::span<const scipp::index>(s, s + n)); }
} // namespace
