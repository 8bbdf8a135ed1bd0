// Contracts: sparse blocks of counts behave as sequences that are zero outside the block.
#include "verif.h"
#include <vector>
#include "core/subbin_sizes.cpp"
using namespace scipp;
using namespace scipp::core;
__attribute__((noinline)) SubbinSizes make(int64_t off, const int64_t *x, int64_t n) { return SubbinSizes(off, std::vector<scipp::index>(x, x + n)); }
// o = {offset, length, value at position p}
static void out(const SubbinSizes &s, int64_t p, int64_t *o) {
  const int64_t k = p - s.offset(), n = scipp::size(s.sizes()); o[0] = s.offset(); o[1] = n; o[2] = k >= 0 && k < n ? s.sizes()[k] : 0; }
#define ARGS2 int64_t ao, const int64_t *a, int64_t an, int64_t bo, const int64_t *b, int64_t bn, int64_t p, int64_t *o
#define AB auto x = make(ao, a, an); auto y = make(bo, b, bn);
ENTRY void add(ARGS2) { AB out(x + y, p, o); }
ENTRY void sub(ARGS2) { AB out(x - y, p, o); }
ENTRY void iadd(ARGS2) { AB out(x += y, p, o); }
ENTRY void isub(ARGS2) { AB out(x -= y, p, o); }
ENTRY void isect(ARGS2) { AB out(x.add_intersection(y), p, o); }
ENTRY void scan(ARGS2, int64_t *o2) { AB x.exclusive_scan(y); out(x, p, o); out(y, p, o2); }
ENTRY bool equal(int64_t ao, const int64_t *a, int64_t an, int64_t bo, const int64_t *b, int64_t bn) { AB return x == y; }
#define ARGS1 int64_t ao, const int64_t *a, int64_t an, int64_t p, int64_t *o
ENTRY void cumsum(ARGS1) { auto x = make(ao, a, an); out(x.cumsum_exclusive(), p, o); }
ENTRY int64_t total(int64_t ao, const int64_t *a, int64_t an) { return make(ao, a, an).sum(); }
ENTRY void assign(int64_t ao, const int64_t *a, int64_t an, int64_t value, int64_t p, int64_t *o) { auto x = make(ao, a, an); x = value; out(x, p, o); }
ENTRY void block(ARGS1) { out(make(ao, a, an), p, o); }
ENTRY void none(int64_t p, int64_t *o) { out(SubbinSizes(), p, o); }
