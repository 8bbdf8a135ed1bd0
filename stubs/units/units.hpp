// Stand-in for the LLNL-Units library (third-party dependency of scipp, not
// installed in this sandbox).  It declares the part of its interface that
// scipp uses.  It is an ASSUMED dependency: nothing of it is verified.  The
// checks that depend on unit algebra state the contract they assume of it.
#pragma once
#ifdef VERIF_ALGEBRA
#include "../algebra/algebra.hpp"
#else
#include <cmath>
#include <cstdint>
#include <functional>
#include <string>

namespace llnl::units {
namespace detail {
class unit_data {
public:
  constexpr unit_data(int meters, int kilograms, int seconds, int amperes,
                      int kelvins, int moles, int candelas, int currencys,
                      int counts, int radians, unsigned per_unit,
                      unsigned flag, unsigned flag2, unsigned equation)
      : m{meters, kilograms, seconds, amperes,  kelvins, moles, candelas,
          currencys, counts,  radians, int(per_unit), int(flag), int(flag2),
          int(equation)} {}
  constexpr unit_data() : m{} {}
  constexpr int meter() const { return m[0]; }
  constexpr int kg() const { return m[1]; }
  constexpr int second() const { return m[2]; }
  constexpr int ampere() const { return m[3]; }
  constexpr int kelvin() const { return m[4]; }
  constexpr int mole() const { return m[5]; }
  constexpr int candela() const { return m[6]; }
  constexpr int currency() const { return m[7]; }
  constexpr int count() const { return m[8]; }
  constexpr int radian() const { return m[9]; }
  constexpr bool is_per_unit() const { return m[10]; }
  constexpr bool has_i_flag() const { return m[11]; }
  constexpr bool has_e_flag() const { return m[12]; }
  constexpr bool is_equation() const { return m[13]; }
  constexpr bool operator==(const unit_data &o) const {
    for (int i = 0; i < 14; ++i)
      if (m[i] != o.m[i])
        return false;
    return true;
  }
  constexpr bool operator!=(const unit_data &o) const { return !(*this == o); }
  constexpr unit_data operator*(const unit_data &o) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.m[i] = m[i] + o.m[i];
    return r;
  }
  constexpr unit_data operator/(const unit_data &o) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.m[i] = m[i] - o.m[i];
    return r;
  }
  constexpr unit_data pow(int p) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.m[i] = m[i] * p;
    return r;
  }
  int m[14];
};
} // namespace detail

class precise_unit {
public:
  constexpr precise_unit() = default;
  constexpr explicit precise_unit(const detail::unit_data &b) : base_(b) {}
  constexpr precise_unit(const detail::unit_data &b, double mult)
      : mult_(mult), base_(b) {}
  constexpr precise_unit(const precise_unit &b, double mult)
      : mult_(mult * b.mult_), base_(b.base_) {}
  constexpr precise_unit(double mult, const precise_unit &b)
      : precise_unit(b, mult) {}
  constexpr double multiplier() const { return mult_; }
  constexpr detail::unit_data base_units() const { return base_; }
  constexpr std::uint32_t commodity() const { return commodity_; }
  constexpr bool has_same_base(const precise_unit &o) const {
    return base_ == o.base_;
  }
  constexpr bool is_exactly_the_same(const precise_unit &o) const {
    return base_ == o.base_ && mult_ == o.mult_;
  }
  bool operator==(const precise_unit &o) const;
  bool operator!=(const precise_unit &o) const { return !(*this == o); }
  constexpr precise_unit operator*(const precise_unit &o) const {
    return {base_ * o.base_, mult_ * o.mult_};
  }
  constexpr precise_unit operator/(const precise_unit &o) const {
    return {base_ / o.base_, mult_ / o.mult_};
  }
  precise_unit pow(int p) const;

private:
  double mult_{1.0};
  detail::unit_data base_;
  std::uint32_t commodity_{0};
};

class precise_measurement {
public:
  precise_measurement(double v, const precise_unit &u) : v_(v), u_(u) {}
  double value() const { return v_; }
  precise_unit units() const { return u_; }

private:
  double v_;
  precise_unit u_;
};

bool times_overflows(const precise_unit &, const precise_unit &);
bool divides_overflows(const precise_unit &, const precise_unit &);
bool pow_overflows(const precise_unit &, int);
bool is_error(const precise_unit &);
bool is_valid(const precise_unit &);
precise_unit sqrt(const precise_unit &);
enum : std::uint64_t { strict_si = 2 };
precise_unit unit_from_string(std::string s, std::uint64_t flags = 0);
std::string to_string(const precise_unit &u, std::uint64_t flags = 0);
double quick_convert(const precise_unit &a, const precise_unit &b);
void addUserDefinedUnit(const std::string &, const precise_unit &);
void clearUserDefinedUnits();

namespace precise {
constexpr precise_unit one{};
constexpr precise_unit meter{
    detail::unit_data(1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit m = meter;
constexpr precise_unit kg{
    detail::unit_data(0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit second{
    detail::unit_data(0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit s = second;
constexpr precise_unit K{
    detail::unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit count{
    detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0)};
constexpr precise_unit rad{
    detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0)};
constexpr precise_unit deg{rad, 0.017453292519943295};
constexpr precise_unit milli{one, 1e-3};
constexpr precise_unit micro{one, 1e-6};
constexpr precise_unit nano{one, 1e-9};
constexpr precise_unit ns{second, 1e-9};
constexpr precise_unit ms{second, 1e-3};
constexpr precise_unit min{second, 60.0};
constexpr precise_unit hr{second, 3600.0};
constexpr precise_unit day{second, 86400.0};
constexpr precise_unit mm{meter, 1e-3};
namespace distance {
constexpr precise_unit angstrom{meter, 1e-10};
}
namespace energy {
constexpr precise_unit eV{
    detail::unit_data(2, 1, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0),
    1.602176634e-19};
}
namespace custom {
bool is_custom_unit(const detail::unit_data &);
bool is_custom_count_unit(const detail::unit_data &);
unsigned short custom_count_unit_number(const detail::unit_data &);
} // namespace custom
} // namespace precise
} // namespace llnl::units
namespace std {
template <> struct hash<llnl::units::precise_unit> {
  size_t operator()(const llnl::units::precise_unit &u) const {
    return hash<double>()(u.multiplier());
  }
};
} // namespace std
#endif
