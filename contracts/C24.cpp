// Contracts: keyed collections. k, x: keys and values in order, n: how many; q: the position looked at afterwards.
#include "verif.h"
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include "scipp/core/dict.h"
#include "core/dict.cpp"
#include "core/except.cpp"
#include "core/string.cpp"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/slice.cpp"
#include "units/dim.cpp"
// only used for the text of messages, which is not specified (units/string.cpp needs the units library)
namespace scipp::units { std::ostream &operator<<(std::ostream &os, const Dim dim) { return os << dim.name(); } }
using namespace scipp;
using namespace scipp::core;
using Coll = Dict<Dim, int64_t>;
namespace {
inline Dim D(uint16_t x) { return Dim(static_cast<Dim::Id>(x)); }
// 0: done, 1: NotFoundError, 2: runtime_error, 3: other
template <class F> int guarded(F &&f) {
  try { f(); return 0; }
  catch (const except::NotFoundError &) { return 1; }
  catch (const std::invalid_argument &) { return 4; }
  catch (const std::runtime_error &) { return 2; }
  catch (...) { return 3; }
}
// o = {size, key at q, value at q}
inline void out(const Coll &d, int64_t q, int64_t *o) {
  o[0] = d.size(); o[1] = -1; o[2] = 0;
  if (q >= 0 && q < d.size()) { o[1] = uint16_t((&*d.keys_begin())[q].id()); o[2] = (&*d.values_begin())[q]; }
}
} // namespace
__attribute__((noinline)) Coll make(const uint16_t *k, const int64_t *x, int64_t n, int64_t kc, int64_t vc) { Coll d; d.reserve(kc > vc ? kc : vc); for (int64_t i = 0; i < n; ++i) d.insert_or_assign(D(k[i]), x[i]); return d; }
#define ARGS const uint16_t *k, const int64_t *x, int64_t n, int64_t kc, int64_t vc
#define GIVEN Coll d = make(k, x, n, kc, vc)
ENTRY int given(ARGS, int64_t q, int64_t *o) { const GIVEN; out(d, q, o); return d.empty(); }
ENTRY int assign(ARGS, uint16_t key, int64_t val, int64_t q, int64_t *o) { GIVEN; const int r = guarded([&] { d.insert_or_assign(D(key), val); }); out(d, q, o); return r; }
ENTRY int erase(ARGS, uint16_t key, int64_t q, int64_t *o) { GIVEN; const int r = guarded([&] { d.erase(D(key)); }); out(d, q, o); return r; }
ENTRY int extract(ARGS, uint16_t key, int64_t q, int64_t *o) { GIVEN; const int r = guarded([&] { o[3] = d.extract(D(key)); }); out(d, q, o); return r; }
ENTRY int clear(ARGS, int64_t q, int64_t *o) { GIVEN; d.clear(); out(d, q, o); return d.empty(); }
ENTRY int reserve(ARGS, int64_t c, int64_t q, int64_t *o) { GIVEN; d.reserve(c); out(d, q, o); return d.capacity() >= c; }
ENTRY int lookup(ARGS, uint16_t key, int64_t *o, int32_t *f) {
  GIVEN; const Coll &c = d;
  f[0] = guarded([&] { o[0] = c[D(key)]; });
  f[1] = guarded([&] { o[1] = c.at(D(key)); });
  f[2] = guarded([&] { o[2] = d[D(key)]; });
  f[3] = guarded([&] { o[3] = d.at(D(key)); });
  return c.contains(D(key)); }
ENTRY int found(ARGS, uint16_t key, int64_t *o) {
  const GIVEN; const auto it = d.find(D(key)); if (it == d.end()) return 0;
  o[0] = uint16_t((*it).first.id()); o[1] = (*it).second; o[2] = it->second; return 1; }
ENTRY int foundm(ARGS, uint16_t key, int64_t val, int64_t q, int64_t *o) {
  GIVEN; auto it = d.find(D(key)); if (it == d.end()) { out(d, q, o); return 0; }
  o[3] = (*it).second; (*it).second = val; out(d, q, o); return 1; }
ENTRY int wr(ARGS, uint16_t key, int64_t val, int64_t q, int64_t *o) { GIVEN; const int r = guarded([&] { d[D(key)] = val; }); out(d, q, o); return r; }
ENTRY int wrat(ARGS, uint16_t key, int64_t val, int64_t q, int64_t *o) { GIVEN; const int r = guarded([&] { d.at(D(key)) = val; }); out(d, q, o); return r; }
ENTRY int copied(ARGS, uint16_t key, int64_t val, int64_t q, int64_t *o, int64_t *p) { const GIVEN; Coll e(d); const int r = guarded([&] { e.insert_or_assign(D(key), val); }); out(d, q, p); out(e, q, o); return r; }
ENTRY int moved(ARGS, int64_t q, int64_t *o) { GIVEN; Coll e(std::move(d)); out(e, q, o); return 0; }
ENTRY int copyassigned(ARGS, uint16_t key, int64_t q, int64_t *o, int64_t *p) { const GIVEN; Coll e; e = d; const int r = guarded([&] { e.erase(D(key)); }); out(d, q, p); out(e, q, o); return r; }
ENTRY int listed(const uint16_t *k, const int64_t *x, int64_t q, int64_t *o) { return guarded([&] { const Coll d{{D(k[0]), x[0]}, {D(k[1]), x[1]}, {D(k[2]), x[2]}}; out(d, q, o); }); }
ENTRY int64_t items(ARGS, uint16_t *ok, int64_t *ov) { const GIVEN; int64_t i = 0; for (auto it = d.begin(); it != d.end(); ++it) { ok[i] = uint16_t((*it).first.id()); ov[i] = (*it).second; ++i; } return i; }
ENTRY int64_t itemsm(ARGS, uint16_t *ok, int64_t *ov) { GIVEN; int64_t i = 0; for (auto it = d.begin(); it != d.end(); ++it) { ok[i] = uint16_t((*it).first.id()); ov[i] = (*it).second; ++i; } return i; }
ENTRY int64_t keys(ARGS, uint16_t *ok) { const GIVEN; int64_t i = 0; for (auto it = d.keys_begin(); it != d.keys_end(); ++it) ok[i++] = uint16_t((*it).id()); return i; }
ENTRY int64_t values(ARGS, int64_t *ov) { const GIVEN; int64_t i = 0; for (auto it = d.values_begin(); it != d.values_end(); ++it) ov[i++] = *it; return i; }
ENTRY int64_t valuesm(ARGS, int64_t *ov) { GIVEN; int64_t i = 0; for (auto it = d.values_begin(); it != d.values_end(); ++it) ov[i++] = *it; return i; }
ENTRY int64_t mapped(ARGS, int64_t c, int64_t *ov) { const GIVEN; const auto f = [c](const int64_t y) { return y - c; }; int64_t i = 0; const auto e = d.values_end().transform(f); for (auto it = d.values_begin().transform(f); it != e; ++it) ov[i++] = *it; return i; }
// change the collection while iterating, then use the iterator; 8 uses each
#define USES(IT, END) \
  f[0] = guarded([&] { static_cast<void>(*IT); }); f[1] = guarded([&] { ++IT; }); f[2] = guarded([&] { static_cast<void>(IT == END); }); f[3] = guarded([&] { static_cast<void>(IT != END); });
#define CHANGE(NAME, BEGIN, END, QUAL) \
  ENTRY int add_##NAME(ARGS, uint16_t key, int64_t val, int32_t *f) { GIVEN; QUAL Coll &c = d; auto it = c.BEGIN(); const auto e = c.END(); d.insert_or_assign(D(key), val); USES(it, e); return 0; } \
  ENTRY int del_##NAME(ARGS, uint16_t key, int32_t *f) { GIVEN; QUAL Coll &c = d; auto it = c.BEGIN(); const auto e = c.END(); const int r = guarded([&] { d.erase(D(key)); }); USES(it, e); return r; } \
  ENTRY int clr_##NAME(ARGS, int32_t *f) { GIVEN; QUAL Coll &c = d; auto it = c.BEGIN(); const auto e = c.END(); d.clear(); USES(it, e); return 0; }
CHANGE(items, begin, end, const) CHANGE(itemsm, begin, end, ) CHANGE(keys, keys_begin, keys_end, const) CHANGE(values, values_begin, values_end, const) CHANGE(valuesm, values_begin, values_end, )
ENTRY int64_t std_find(const uint16_t *k, int64_t n, uint16_t key) { const auto *p = reinterpret_cast<const Dim *>(k); const auto e = D(key); const Dim *q = p + n; return std::find(p, q, e) - p; }
