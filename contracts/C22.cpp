// Contracts: units of results. A unit is an opaque number (a, b, c) or no unit (ha, hb, hc = 0); see stubs/algebra.
// o = {has a unit, unit}; the result is 0 (done), 1 (UnitError) or 2 (any other exception).
#include "verif.h"
#include <regex>
#include <units/units.hpp>
#include <units/units_util.hpp>
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/creation.h"
#include "scipp/core/element/cumulative.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/element/histogram.h"
#include "scipp/core/element/hyperbolic.h"
#include "scipp/core/element/logical.h"
#include "scipp/core/element/map_to_bins.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/rebin.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/to_unit.h"
#include "scipp/core/element/trigonometry.h"
#include "scipp/core/element/util.h"
#include "units/unit.cpp"
#include "units/except.cpp"
namespace el = scipp::core::element;
namespace un = scipp::units;
using scipp::units::Unit;
namespace {
inline Unit U(const int64_t a, const int32_t h) { return h ? Unit(llnl::units::precise_unit(a)) : Unit(); }
inline void put(int64_t *o, const Unit &u) { o[0] = u.has_value(); o[1] = u.has_value() ? u.underlying().id : 0; }
template <class F> int guarded(F &&f) { try { f(); return 0; } catch (const scipp::except::UnitError &) { return 1; } catch (...) { return 2; } }
} // namespace
// the executable instance of the algebra: exponents per byte
namespace {
inline int lane(int64_t a, int i) { return int8_t(uint64_t(a) >> (8 * i)); }
template <class F> bool all(F &&f) { for (int i = 0; i < 8; ++i) if (!f(i)) return false; return true; }
template <class F> int64_t each(F &&f) { uint64_t r = 0; for (int i = 0; i < 8; ++i) r |= uint64_t(uint8_t(f(i))) << (8 * i); return int64_t(r); }
inline bool fits(int64_t x) { return x >= -127 && x <= 127; }
} // namespace
extern "C" {
int64_t u_times(int64_t a, int64_t b) { return each([&](int i) { return lane(a, i) + lane(b, i); }); }
int64_t u_divide(int64_t a, int64_t b) { return each([&](int i) { return lane(a, i) - lane(b, i); }); }
int64_t u_pow(int64_t a, int n) { return each([&](int i) { return int64_t(lane(a, i)) * n; }); }
int64_t u_sqrt(int64_t a) { return all([&](int i) { return lane(a, i) % 2 == 0; }) ? each([&](int i) { return lane(a, i) / 2; }) : -1; }
int u_equal(int64_t a, int64_t b) { return a == b; }
int u_same_base(int64_t a, int64_t b) { return uint64_t(a) << 8 == uint64_t(b) << 8; }
int u_count(int64_t a) { return lane(a, 5); }
int u_times_overflows(int64_t a, int64_t b) { return !all([&](int i) { return fits(lane(a, i) + lane(b, i)); }); }
int u_divides_overflows(int64_t a, int64_t b) { return !all([&](int i) { return fits(lane(a, i) - lane(b, i)); }); }
int u_pow_overflows(int64_t a, int n) { return !all([&](int i) { return fits(int64_t(lane(a, i)) * n); }); }
int u_is_error(int64_t a) { return a == -1; }
int u_is_valid(int64_t a) { return a != -1; }
int u_is_custom(int64_t) { return 0; }
int u_is_custom_count(int64_t) { return 0; }
int u_custom_count_number(int64_t) { return 0; }
int u_commodity(int64_t) { return 0; }
double u_multiplier(int64_t) { return 1; }
}
namespace llnl::units { std::string to_string(const precise_unit &, std::uint64_t) { return "u"; } precise_unit unit_from_string(std::string, std::uint64_t) { return precise_unit(77); } }
namespace scipp::units { std::string to_string(const Unit &) { return "u"; } }

#define A1 int64_t a, int32_t ha
#define A2 A1, int64_t b, int32_t hb
#define A3 A2, int64_t c, int32_t hc
#define X1 const Unit x = U(a, ha)
#define X2 X1, y = U(b, hb)
#define X3 X2, z = U(c, hc)
#define E1(NAME, EXPR) ENTRY int NAME(A1, int64_t *o) { X1; return guarded([&] { put(o, EXPR); }); }
#define E2(NAME, EXPR) ENTRY int NAME(A2, int64_t *o) { X2; return guarded([&] { put(o, EXPR); }); }
#define E3(NAME, EXPR) ENTRY int NAME(A3, int64_t *o) { X3; return guarded([&] { put(o, EXPR); }); }
#define I1(NAME, STMT) ENTRY int NAME(A1, int64_t *o) { Unit x = U(a, ha); const int r = guarded([&] { STMT; }); put(o, x); return r; }
#define I2(NAME, STMT) ENTRY int NAME(A2, int64_t *o) { Unit x = U(a, ha); const Unit y = U(b, hb); const int r = guarded([&] { STMT; }); put(o, x); return r; }
#define I3(NAME, STMT) ENTRY int NAME(A3, int64_t *o) { Unit x = U(a, ha); const Unit y = U(b, hb), z = U(c, hc); const int r = guarded([&] { STMT; }); put(o, x); return r; }
#define I4(NAME, STMT) ENTRY int NAME(A3, int64_t d, int32_t hd, int64_t *o) { Unit x = U(a, ha); const Unit y = U(b, hb), z = U(c, hc), w = U(d, hd); const int r = guarded([&] { STMT; }); put(o, x); return r; }
// Unit itself
E2(u_add, x + y) E2(u_sub, x - y) E2(u_mul, x *y) E2(u_div, x / y) E2(u_mod, x % y)
I2(u_iadd, x += y) I2(u_isub, x -= y) I2(u_imul, x *= y) I2(u_idiv, x /= y) I2(u_imod, x %= y)
E1(u_neg, -x) E1(u_abs, abs(x)) E1(u_floor, floor(x)) E1(u_ceil, ceil(x)) E1(u_rint, rint(x)) E1(u_root, sqrt(x))
E1(u_sin, sin(x)) E1(u_cos, cos(x)) E1(u_tan, tan(x)) E1(u_asin, asin(x)) E1(u_acos, acos(x)) E1(u_atan, atan(x)) E2(u_atan2, atan2(x, y))
E1(u_sinh, sinh(x)) E1(u_cosh, cosh(x)) E1(u_tanh, tanh(x)) E1(u_asinh, asinh(x)) E1(u_acosh, acosh(x)) E1(u_atanh, atanh(x))
ENTRY int u_power(A1, int64_t n, int64_t *o) { X1; return guarded([&] { put(o, pow(x, n)); }); }
ENTRY int u_eq(A2) { X2; return x == y; }
ENTRY int u_ne(A2) { X2; return x != y; }
ENTRY int u_identical(A2) { X2; return identical(x, y); }
ENTRY int u_base(A2, int64_t *o) { X2; o[0] = 0; const int r = guarded([&] { o[0] = x.has_same_base(y); }); return r; }
ENTRY int u_counts(A1) { X1; return x.isCounts(); }
ENTRY int u_density(A1) { X1; return x.isCountDensity(); }
// element operations, applied to the units of their operands
E2(e_add, el::add(x, y)) E2(e_sub, el::subtract(x, y)) E2(e_mul, el::multiply(x, y)) E2(e_div, el::divide(x, y)) E2(e_floordiv, el::floor_divide(x, y)) E2(e_mod, el::mod(x, y))
E2(e_spatial, el::apply_spatial_transformation(x, y)) E1(e_neg, el::negative(x))
I2(e_iadd, el::add_equals(x, y)) I2(e_isub, el::subtract_equals(x, y)) I2(e_imul, el::multiply_equals(x, y)) I2(e_idiv, el::divide_equals(x, y)) I2(e_imod, el::mod_equals(x, y))
E3(e_isclose, el::isclose(x, y, z)) E3(e_isclosenan, el::isclose_equal_nan(x, y, z))
E2(e_less, el::less(x, y)) E2(e_greater, el::greater(x, y)) E2(e_le, el::less_equal(x, y)) E2(e_ge, el::greater_equal(x, y)) E2(e_eq, el::equal(x, y)) E2(e_ne, el::not_equal(x, y))
E1(e_abs, el::abs(x)) E1(e_norm, el::norm(x)) E2(e_pow, el::pow(x, y)) E1(e_sqrt, el::sqrt(x)) E2(e_dot, el::dot(x, y)) E2(e_cross, el::cross(x, y)) E1(e_reciprocal, el::reciprocal(x))
E1(e_exp, el::exp(x)) E1(e_log, el::log(x)) E1(e_log10, el::log10(x)) E1(e_floor, el::floor(x)) E1(e_ceil, el::ceil(x)) E1(e_rint, el::rint(x)) E1(e_erf, el::erf(x)) E1(e_erfc, el::erfc(x)) E2(e_midpoint, el::midpoint(x, y))
E1(e_sin, el::sin(x)) E1(e_cos, el::cos(x)) E1(e_tan, el::tan(x)) E1(e_asin, el::asin(x)) E1(e_acos, el::acos(x)) E1(e_atan, el::atan(x)) E2(e_atan2, el::atan2(x, y))
E1(e_sinh, el::sinh(x)) E1(e_cosh, el::cosh(x)) E1(e_tanh, el::tanh(x)) E1(e_asinh, el::asinh(x)) E1(e_acosh, el::acosh(x)) E1(e_atanh, el::atanh(x))
E2(e_and, el::logical_and(x, y)) E2(e_or, el::logical_or(x, y)) E2(e_xor, el::logical_xor(x, y)) E1(e_not, el::logical_not(x))
I2(e_iand, el::logical_and_equals(x, y)) I2(e_ior, el::logical_or_equals(x, y)) I2(e_ixor, el::logical_xor_equals(x, y))
E1(e_isnan, el::isnan(x)) E1(e_isinf, el::isinf(x)) E1(e_isfinite, el::isfinite(x)) E1(e_isposinf, el::isposinf(x)) E1(e_isneginf, el::isneginf(x))
E2(e_nan_to_num, el::nan_to_num(x, y)) E2(e_pinf_to_num, el::positive_inf_to_num(x, y)) E2(e_ninf_to_num, el::negative_inf_to_num(x, y))
I3(e_nan_to_num_out, el::nan_to_num_out_arg(x, y, z)) I3(e_pinf_to_num_out, el::positive_inf_to_num_out_arg(x, y, z)) I3(e_ninf_to_num_out, el::negative_inf_to_num_out_arg(x, y, z))
E1(e_values, el::values(x)) E1(e_variances, el::variances(x)) E1(e_stddevs, el::stddevs(x))
I3(e_sorted, el::issorted_nondescending(x, y, z)) I3(e_sorted_d, el::issorted_nonascending(x, y, z)) E1(e_islinspace, el::islinspace(x)) E1(e_isarange, el::isarange(x))
E2(e_zip, el::zip(x, y)) E1(e_get0, el::get<0>(x)) E1(e_get1, el::get<1>(x)) I1(e_zeros, el::fill_zeros(x)) E3(e_where, el::where(x, y, z))
E1(e_zeros_like, el::zeros_not_bool_like(x)) E3(e_position, el::geometry::position(x, y, z)) E1(e_x, el::geometry::x(x)) E1(e_y, el::geometry::y(x)) E1(e_z, el::geometry::z(x))
ENTRY int e_map(A3, int64_t d, int32_t hd, int64_t *o) { X3, w = U(d, hd); return guarded([&] { put(o, el::event::map_linspace(x, y, z, w)); }); }
ENTRY int e_map_sorted(A3, int64_t d, int32_t hd, int64_t *o) { X3, w = U(d, hd); return guarded([&] { put(o, el::event::map_sorted_edges(x, y, z, w)); }); }
I4(e_map_mul, el::event::map_and_mul_linspace(x, y, z, w)) I4(e_map_mul_sorted, el::event::map_and_mul_sorted_edges(x, y, z, w))
E3(e_histogram, el::histogram(x, y, z)) E3(e_rebin, el::rebin<std::less<>>(x, y, z))
I3(e_binning, el::update_indices_by_binning_linspace(x, y, z)) I3(e_binning_sorted, el::update_indices_by_binning_sorted_edges(x, y, z)) I3(e_grouping, el::update_indices_by_grouping(x, y, z))
I4(e_grouping_contiguous, el::update_indices_by_grouping_contiguous(x, y, z, w)) I3(e_existing, el::update_indices_from_existing(x, y, z)) E3(e_count, el::count_indices(x, y, z)) E1(e_groups, el::groups_to_map<int64_t>(x))
I4(e_bin, el::bin(x, y, z, w)) E2(e_to_unit, el::to_unit(x, y)) I2(e_subbin, el::subbin_sizes_add_intersection(x, y))
I2(e_incl, Unit yy = y; el::inclusive_scan(x, yy)) I2(e_excl, Unit yy = y; el::exclusive_scan(x, yy))
