// An arbitrary algebra of units, in place of the LLNL-Units library (third party, not installed here): a unit is an
// opaque number, every operation on units is a function nothing is known of, except on the literals that scipp's headers
// compute at compile time. The functions u_* have an executable instance (contracts/C22.cpp) for runs of the harness.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <string>
extern "C" {
int64_t u_times(int64_t, int64_t);
int64_t u_divide(int64_t, int64_t);
int64_t u_pow(int64_t, int);
int64_t u_sqrt(int64_t);
int u_equal(int64_t, int64_t);
int u_same_base(int64_t, int64_t);
int u_count(int64_t);
int u_times_overflows(int64_t, int64_t);
int u_divides_overflows(int64_t, int64_t);
int u_pow_overflows(int64_t, int);
int u_is_error(int64_t);
int u_is_valid(int64_t);
int u_is_custom(int64_t);
int u_is_custom_count(int64_t);
int u_custom_count_number(int64_t);
int u_commodity(int64_t);
double u_multiplier(int64_t);
}
namespace llnl::units {
namespace detail {
// literals: eight signed exponents (m, kg, s, K, A, count, rad, scale), one per byte, without carry
constexpr int64_t lanes(const int64_t a, const int64_t b, const int sign) {
  uint64_t r = 0;
  for (int i = 0; i < 64; i += 8) r |= uint64_t(uint8_t((uint64_t(a) >> i) + sign * (uint64_t(b) >> i))) << i;
  return int64_t(r);
}
struct unit_data {
  int64_t id;
  int count() const { return u_count(id); }
  int meter() const; int kg() const; int second() const; int ampere() const; int kelvin() const; int mole() const; int candela() const; int currency() const; int radian() const;
  bool is_per_unit() const; bool has_i_flag() const; bool has_e_flag() const; bool is_equation() const;
  bool has_same_base(const unit_data &o) const { return u_same_base(id, o.id); }
};
} // namespace detail
class precise_unit {
public:
  int64_t id{0};
  constexpr precise_unit() = default;
  constexpr explicit precise_unit(const int64_t i) : id(i) {}
  constexpr precise_unit(const precise_unit &b, double mult) : id(__builtin_is_constant_evaluated() ? detail::lanes(b.id, int64_t(mult == 299792458 ? 60 : mult < 0.5 ? 50 : 51) << 56, 1) : b.id) {}
  double multiplier() const { return u_multiplier(id); }
  detail::unit_data base_units() const { return {id}; }
  std::uint32_t commodity() const { return u_commodity(id); }
  bool has_same_base(const precise_unit &o) const { return u_same_base(id, o.id); }
  constexpr bool is_exactly_the_same(const precise_unit &o) const { return id == o.id; }
  bool operator==(const precise_unit &o) const { return u_equal(id, o.id); }
  bool operator!=(const precise_unit &o) const { return !u_equal(id, o.id); }
  constexpr precise_unit operator*(const precise_unit &o) const { return precise_unit(__builtin_is_constant_evaluated() ? detail::lanes(id, o.id, 1) : u_times(id, o.id)); }
  constexpr precise_unit operator/(const precise_unit &o) const { return precise_unit(__builtin_is_constant_evaluated() ? detail::lanes(id, o.id, -1) : u_divide(id, o.id)); }
  precise_unit pow(int p) const { return precise_unit(u_pow(id, p)); }
};
inline bool times_overflows(const precise_unit &a, const precise_unit &b) { return u_times_overflows(a.id, b.id); }
inline bool divides_overflows(const precise_unit &a, const precise_unit &b) { return u_divides_overflows(a.id, b.id); }
inline bool pow_overflows(const precise_unit &a, int n) { return u_pow_overflows(a.id, n); }
inline bool is_error(const precise_unit &a) { return u_is_error(a.id); }
inline bool is_valid(const precise_unit &a) { return u_is_valid(a.id); }
inline precise_unit sqrt(const precise_unit &a) { return precise_unit(u_sqrt(a.id)); }
enum : std::uint64_t { strict_si = 2 };
precise_unit unit_from_string(std::string s, std::uint64_t flags = 0);
std::string to_string(const precise_unit &u, std::uint64_t flags = 0);
double quick_convert(const precise_unit &a, const precise_unit &b);
void addUserDefinedUnit(const std::string &, const precise_unit &);
void clearUserDefinedUnits();
namespace precise {
constexpr precise_unit one{};
constexpr precise_unit meter{int64_t(1)}, m = meter, kg{int64_t(1) << 8}, second{int64_t(1) << 16}, s = second, K{int64_t(1) << 24}, count{int64_t(1) << 40}, rad{int64_t(1) << 48}, deg{(int64_t(1) << 48) + (int64_t(20) << 56)};
constexpr precise_unit milli{int64_t(3) << 56}, micro{int64_t(6) << 56}, nano{int64_t(9) << 56};
constexpr precise_unit ns = nano * second, ms = milli * second, mm = milli * meter, min{second.id + (int64_t(21) << 56)}, hr{second.id + (int64_t(22) << 56)}, day{second.id + (int64_t(23) << 56)};
namespace distance { constexpr precise_unit angstrom{meter.id + (int64_t(10) << 56)}; }
namespace energy { constexpr precise_unit eV{int64_t(2) + (int64_t(1) << 8) + (int64_t(31) << 56)}; }
namespace custom {
inline bool is_custom_unit(const detail::unit_data &d) { return u_is_custom(d.id); }
inline bool is_custom_count_unit(const detail::unit_data &d) { return u_is_custom_count(d.id); }
inline unsigned short custom_count_unit_number(const detail::unit_data &d) { return u_custom_count_number(d.id); }
} // namespace custom
} // namespace precise
} // namespace llnl::units
namespace std {
template <> struct hash<llnl::units::precise_unit> { size_t operator()(const llnl::units::precise_unit &u) const { return hash<int64_t>()(u.id); } };
} // namespace std
