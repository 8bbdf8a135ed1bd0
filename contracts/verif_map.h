// Grouping through the hash map that groups_to_map builds. g: group labels
#pragma once
#include <unordered_map>
#define MAPGRP(S, I, X, G) \
  ENTRY I upd_map_##S(I index, X x, const G *g, int64_t n) { const auto m = el::groups_to_map<I>(scipp::span<const G>(g, n)); el::update_indices_by_grouping(index, x, m); return index; }
MAPGRP(lll, int64_t, int64_t, int64_t) MAPGRP(ill, int32_t, int64_t, int64_t) MAPGRP(lli, int64_t, int64_t, int32_t) MAPGRP(ili, int32_t, int64_t, int32_t) MAPGRP(lii, int64_t, int32_t, int32_t) MAPGRP(iii, int32_t, int32_t, int32_t) MAPGRP(iil, int32_t, int32_t, int64_t)
ENTRY int64_t upd_map_ltt(int64_t index, int64_t x, const int64_t *g, int64_t n) { const auto m = el::groups_to_map<int64_t>(scipp::span<const core::time_point>(reinterpret_cast<const core::time_point *>(g), n)); el::update_indices_by_grouping(index, core::time_point(x), m); return index; }
ENTRY int64_t upd_map_ldd(int64_t index, double x, const double *g, int64_t n) { const auto m = el::groups_to_map<int64_t>(scipp::span<const double>(g, n)); el::update_indices_by_grouping(index, x, m); return index; }
