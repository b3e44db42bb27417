// Reference vectors, units and generators shared by the coordinate checks.
#pragma once
#include "pbt.hpp"
#include <boost/units/quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/si/io.hpp>
#include <boost/units/systems/cgs.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/io.hpp>
#include <boost/astronomy/units/length.hpp>
#include <tuple>
#include <type_traits>
#include <cmath>
namespace coord {
namespace bu = boost::units;
namespace bau = boost::astronomy::units;
using pbt::Case; using pbt::u64;
typedef long double L;
const L PI_L = 3.141592653589793238462643383279502884L;
const L EPS = 2.220446049250313e-16L;
typedef bu::quantity<bu::si::plane_angle> rad_q;
typedef bu::quantity<bu::degree::plane_angle> deg_q;
typedef bu::quantity<bu::si::length> m_q;
typedef bu::quantity<bu::cgs::length> cm_q;
typedef bu::quantity<bau::length_astronomical_unit> au_q;
typedef bu::quantity<bau::length_parsec> pc_q;
typedef bu::quantity<bu::si::dimensionless> one_q;
// SI value of a quantity, by an independent factor for every unit that is used.
inline L si(const rad_q& q) { return q.value(); }
// Boost.Units defines the degree with twelve digits of pi (6.28318530718/360 rad); the checks take that unit as given.
const L DEG_L = 6.28318530718L / 360;
inline L si(const deg_q& q) { return static_cast<L>(q.value()) * DEG_L; }
inline L si(const m_q& q) { return q.value(); }
inline L si(const cm_q& q) { return static_cast<L>(q.value()) / 100; }
inline L si(const au_q& q) { return static_cast<L>(q.value()) * 149597870691.0L; }
inline L si(const pc_q& q) { return static_cast<L>(q.value()) * 3.0856775813e16L; }
inline L si(const one_q& q) { return q.value(); }
template <class Q> struct per_unit { static L get() { return si(Q::from_value(1)); } };
template <class Q> Q from_si(L v) { return Q::from_value(static_cast<double>(v / per_unit<Q>::get())); }

struct V3 { L x = 0, y = 0, z = 0; };
inline V3 operator+(const V3& a, const V3& b) { return V3{a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(const V3& a, const V3& b) { return V3{a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(const V3& a, L k) { return V3{a.x * k, a.y * k, a.z * k}; }
inline L dot3(const V3& a, const V3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross3(const V3& a, const V3& b) { return V3{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline L norm(const V3& a) { return std::sqrt(dot3(a, a)); }
inline std::ostream& operator<<(std::ostream& o, const V3& v) { return o << "(" << v.x << ", " << v.y << ", " << v.z << ")"; }
inline V3 polar(L azimuth, L colat, L r) { return V3{r * std::sin(colat) * std::cos(azimuth), r * std::sin(colat) * std::sin(azimuth), r * std::cos(colat)}; }
inline V3 equatorial(L azimuth, L lat, L r) { return V3{r * std::cos(lat) * std::cos(azimuth), r * std::cos(lat) * std::sin(azimuth), r * std::sin(lat)}; }
inline bool finite(const V3& v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }

// angles: multiples of 15 degrees, their neighbourhood, small and arbitrary ones
inline double angle_deg(Case& c, double lo, double hi) {
    double a;
    switch (c.below(5)) {
    case 0: a = 15.0 * static_cast<double>(c.range(static_cast<long>(std::ceil(lo / 15)), static_cast<long>(std::floor(hi / 15)))); break;
    case 1: a = 90.0 * static_cast<double>(c.range(static_cast<long>(std::ceil(lo / 90)), static_cast<long>(std::floor(hi / 90)))) + c.scaled(-12, -1); break;
    case 2: a = lo < 0 || lo == 0 ? c.scaled(-9, 0, lo < 0) : lo; break;
    default: a = lo + (hi - lo) * c.unit(); break;
    }
    return std::min(hi, std::max(lo, a));
}
inline double component(Case& c, double emin, double emax) {
    switch (c.below(6)) {
    case 0: return 0;
    case 1: return static_cast<double>(c.range(-9, 9));
    default: return c.scaled(emin, emax);
    }
}
// three components of a vector in SI, of comparable or very different size
inline V3 vector_si(Case& c, double emin = -20, double emax = 20) {
    double e = emin + (emax - emin) * c.unit(); L k = std::pow(10.0L, e); V3 v;
    switch (c.below(4)) {
    case 0: v = V3{static_cast<L>(c.range(-3, 3)), static_cast<L>(c.range(-3, 3)), static_cast<L>(c.range(-3, 3))}; break;
    case 1: v = V3{c.scaled(-9, 0), c.scaled(-9, 0), c.scaled(-9, 0)}; break;
    case 2: v = equatorial(static_cast<L>(angle_deg(c, -180, 180)) * PI_L / 180, static_cast<L>(angle_deg(c, -90, 90)) * PI_L / 180, 1); break;
    default: v = V3{2 * c.unit() - 1, 2 * c.unit() - 1, 2 * c.unit() - 1}; break;
    }
    return v * k;
}
// displacement (relative to the length) that going through (azimuth, angle from a pole or from the equator) may cause in double arithmetic
inline L polar_slack(const V3& v) { L r = norm(v); if (r == 0) return 0; L s = std::sqrt(v.x * v.x + v.y * v.y) / r; return std::min(8e-8L, 8 * EPS / std::max(s, 1e-12L)) + 16 * EPS; }
inline void same_vector(const V3& got, const V3& want, L tol, const std::string& what) {
    V3 d = got - want; PBT_CHECK(finite(got) && norm(d) <= tol, what << ": got " << got << ", expected " << want << ", off by " << norm(d) << " (allowed " << tol << ")");
}
inline bool close(L a, L b, L rel, L abs_ = 0) { return std::isfinite(a) && std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_; }
template <std::size_t I = 0, class F, class... T> typename std::enable_if<I == sizeof...(T)>::type pick_type(u64, std::tuple<T...>*, F&) {}
template <std::size_t I = 0, class F, class... T> typename std::enable_if<(I < sizeof...(T))>::type pick_type(u64 i, std::tuple<T...>* t, F& f) {
    if (i == I) f.template run<typename std::tuple_element<I, std::tuple<T...>>::type>(); else pick_type<I + 1>(i, t, f);
}
}
