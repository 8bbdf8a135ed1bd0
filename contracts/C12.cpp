// Contracts: floor division, remainder and true division (scipp/common/numeric.h) as used by the element operations.
#include "verif.h"
#include "scipp/common/numeric.h"
#include "scipp/core/element/arithmetic.h"
using namespace scipp;
#define FD(NAME, A, B, R) ENTRY R fd_##NAME(A a, B b) { return numeric::floor_divide(a, b); }
#define RM(NAME, A, B, R) ENTRY R rem_##NAME(A a, B b) { return numeric::remainder(a, b); }
#define TD(NAME, A, B, R) ENTRY R td_##NAME(A a, B b) { return numeric::true_divide(a, b); }
#define DM(NAME, A, B, R) ENTRY void dm_##NAME(A a, B b, R *out) { out[0] = numeric::floor_divide(a, b); out[1] = numeric::remainder(a, b); }
#define ALL(NAME, A, B, R) FD(NAME, A, B, R) RM(NAME, A, B, R) DM(NAME, A, B, R)
ALL(i64_i64, int64_t, int64_t, int64_t)
ALL(i32_i32, int32_t, int32_t, int32_t)
ALL(i64_i32, int64_t, int32_t, int64_t)
ALL(i32_i64, int32_t, int64_t, int64_t)
ALL(f64_f64, double, double, double)
ALL(f32_f32, float, float, float)
ALL(f64_i64, double, int64_t, double)
ALL(i64_f64, int64_t, double, double)
ALL(f64_i32, double, int32_t, double)
ALL(i32_f64, int32_t, double, double)
TD(i64_i64, int64_t, int64_t, double)
TD(i32_i32, int32_t, int32_t, double)
TD(i64_i32, int64_t, int32_t, double)
TD(f64_f64, double, double, double)
TD(f64_i64, double, int64_t, double)
TD(i64_f64, int64_t, double, double)
// element-level operations use the same kernels
ENTRY int64_t el_fd_i64(int64_t a, int64_t b) { return core::element::floor_divide(a, b); }
ENTRY int64_t el_mod_i64(int64_t a, int64_t b) { return core::element::mod(a, b); }
ENTRY void el_fd_eq_i64(int64_t *a, int64_t b) { core::element::floor_divide_equals(a[0], b); }
ENTRY void el_mod_eq_i64(int64_t *a, int64_t b) { core::element::mod_equals(a[0], b); }
ENTRY double el_fd_f64(double a, double b) { return core::element::floor_divide(a, b); }
ENTRY double el_mod_f64(double a, double b) { return core::element::mod(a, b); }
ENTRY double el_div_i64(int64_t a, int64_t b) { return core::element::divide(a, b); }
