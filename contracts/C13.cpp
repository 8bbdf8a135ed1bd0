// Contracts: integer powers (scipp/common/numeric.h, element::pow).
#include "verif.h"
#include "scipp/common/numeric.h"
#include "scipp/core/element/math.h"
using namespace scipp;
namespace el = scipp::core::element;
#define PW(N, B, E) ENTRY B pow_##N(B base, E e) { return numeric::pow(base, e); } ENTRY B npow_##N(B base, E e) { return numeric::pow(base, e); }
PW(dl, double, int64_t) PW(di, double, int32_t) PW(fl, float, int64_t) PW(fi, float, int32_t) PW(ll, int64_t, int64_t) PW(li, int64_t, int32_t)
ENTRY double epow_dl(double base, int64_t e) { return el::pow(base, e); }
ENTRY int64_t epow_ll(int64_t base, int64_t e) { return el::pow(base, e); }
ENTRY double epowip_dl(double base, int64_t e) { double o = 0; el::pow_in_place(o, base, e); return o; }
ENTRY int64_t epowip_ll(int64_t base, int64_t e) { int64_t o = 0; el::pow_in_place(o, base, e); return o; }
