// The representations under test: three of every kind, in uniform and mixed units.
#pragma once
#include "coord.hpp"
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/coordinate/arithmetic.hpp>
namespace coord {
namespace bac = boost::astronomy::coordinate;
typedef bac::cartesian_representation<double, m_q, m_q, m_q> C1;
typedef bac::cartesian_representation<double, cm_q, au_q, m_q> C2;
typedef bac::cartesian_representation<double, pc_q, pc_q, pc_q> C3;
typedef bac::spherical_representation<double, rad_q, rad_q, m_q> S1;
typedef bac::spherical_representation<double, deg_q, deg_q, cm_q> S2;
typedef bac::spherical_representation<double, deg_q, rad_q, au_q> S3;
typedef bac::spherical_equatorial_representation<double, rad_q, rad_q, m_q> E1;
typedef bac::spherical_equatorial_representation<double, deg_q, deg_q, cm_q> E2;
typedef bac::spherical_equatorial_representation<double, rad_q, deg_q, pc_q> E3;
typedef std::tuple<C1, C2, C3, S1, S2, S3, E1, E2, E3> all_reps;
const u64 n_reps = 9;
template <class T> struct kind;
template <class... A> struct kind<bac::cartesian_representation<A...>> {
    typedef bac::cartesian_representation<A...> T; enum { id = 0 }; static const char* name() { return "cartesian"; }
    static V3 vec(const T& t) { return V3{si(t.get_x()), si(t.get_y()), si(t.get_z())}; }
    template <class R> static auto make(const R& r) { return bac::make_cartesian_representation(r); }
    template <class R> static auto make_units(const R& r) { return bac::make_cartesian_representation<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3, typename R::type, typename R::quantity1, typename R::quantity2, typename R::quantity3>(r); }
    template <class R> static auto make_as(const R& r) { return bac::make_cartesian_representation<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3>(r); }
    static auto parts(const T& t) { return std::make_tuple(t.get_x(), t.get_y(), t.get_z()); }
    static auto tuple(const T& t) { return t.get_x_y_z(); }
    static void set(T& t, int i, typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { if (i == 0) t.set_x(a); else if (i == 1) t.set_y(b); else if (i == 2) t.set_z(d); else t.set_x_y_z(a, b, d); }
    static T make3(typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { return bac::make_cartesian_representation(a, b, d); }
    static const char* title() { return "Cartesian Representation ( "; }
};
template <class T_, int ID> struct ang_kind {
    typedef T_ T; enum { id = ID };
    static auto parts(const T& t) { return std::make_tuple(t.get_lat(), t.get_lon(), t.get_dist()); }
    static auto tuple(const T& t) { return t.get_lat_lon_dist(); }
    static void set(T& t, int i, typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { if (i == 0) t.set_lat(a); else if (i == 1) t.set_lon(b); else if (i == 2) t.set_dist(d); else t.set_lat_lon_dist(a, b, d); }
};
template <class... A> struct kind<bac::spherical_representation<A...>> : ang_kind<bac::spherical_representation<A...>, 1> {
    typedef bac::spherical_representation<A...> T; static const char* name() { return "spherical"; }
    static V3 vec(const T& t) { return polar(si(t.get_lat()), si(t.get_lon()), si(t.get_dist())); }
    template <class R> static auto make(const R& r) { return bac::make_spherical_representation(r); }
    template <class R> static auto make_units(const R& r) { return bac::make_spherical_representation<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3, typename R::type, typename R::quantity1, typename R::quantity2, typename R::quantity3>(r); }
    template <class R> static auto make_as(const R& r) { return bac::make_spherical_representation<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3>(r); }
    static T make3(typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { return bac::make_spherical_representation(a, b, d); }
    static const char* title() { return "Spherical Representation ( "; }
};
template <class... A> struct kind<bac::spherical_equatorial_representation<A...>> : ang_kind<bac::spherical_equatorial_representation<A...>, 2> {
    typedef bac::spherical_equatorial_representation<A...> T; static const char* name() { return "spherical equatorial"; }
    static V3 vec(const T& t) { return equatorial(si(t.get_lat()), si(t.get_lon()), si(t.get_dist())); }
    template <class R> static auto make(const R& r) { return bac::make_spherical_equatorial_representation(r); }
    template <class R> static auto make_units(const R& r) { return bac::make_spherical_equatorial_representation<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3, typename R::type, typename R::quantity1, typename R::quantity2, typename R::quantity3>(r); }
    template <class R> static auto make_as(const R& r) { return bac::make_spherical_equatorial_representation<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3>(r); }
    static T make3(typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { return bac::make_spherical_equatorial_representation(a, b, d); }
    static const char* title() { return "Spherical Equatorial Representation ( "; }
};
template <class T> V3 vec(const T& t) { return kind<T>::vec(t); }
// components of a random point; `slack` is the relative displacement that representing it in double may cause
template <class T> T gen_rep(Case& c, double emin, double emax, V3& v, L& slack, bool wide) {
    typedef kind<T> K; typename T::quantity1 a; typename T::quantity2 b; typename T::quantity3 d;
    if (K::id == 0) {
        V3 w = vector_si(c, emin, emax); L w1[3] = {w.x, w.y, w.z};
        a = T::quantity1::from_value(static_cast<double>(w1[0] / per_unit<typename T::quantity1>::get())); b = T::quantity2::from_value(static_cast<double>(w1[1] / per_unit<typename T::quantity2>::get())); d = T::quantity3::from_value(static_cast<double>(w1[2] / per_unit<typename T::quantity3>::get()));
        slack = 8 * EPS;
    } else {
        bool w = wide && c.chance(1, 4); double lo1 = w ? -720 : -180, hi1 = w ? 720 : 180, lo2 = w ? -360 : K::id == 1 ? 0 : -90, hi2 = w ? 360 : K::id == 1 ? 180 : 90;
        double l1 = angle_deg(c, lo1, hi1), l2 = angle_deg(c, lo2, hi2), r = c.chance(1, 16) ? 0 : c.chance(1, 4) ? static_cast<double>(1 + c.below(9)) * std::pow(10.0, std::floor((emin + emax) / 2)) : c.scaled(emin, emax, false);
        a = T::quantity1::from_value(static_cast<double>(static_cast<L>(l1) * PI_L / 180 / per_unit<typename T::quantity1>::get())); b = T::quantity2::from_value(static_cast<double>(static_cast<L>(l2) * PI_L / 180 / per_unit<typename T::quantity2>::get()));
        d = T::quantity3::from_value(static_cast<double>(r / per_unit<typename T::quantity3>::get()));
        slack = 8 * EPS * (2 + std::fabs(si(a)) + std::fabs(si(b)));
    }
    T t(a, b, d); V3 x;
    { auto p = K::parts(t); L e = K::id ? 4 * EPS : 0; PBT_CHECK(close(si(std::get<0>(p)), si(a), e) && close(si(std::get<1>(p)), si(b), e) && std::get<2>(p) == d, "a " << K::name() << " point made from " << a << ", " << b << ", " << d << " returns " << std::get<0>(p) << ", " << std::get<1>(p) << ", " << std::get<2>(p)); }
    if (K::id == 0) x = V3{si(a), si(b), si(d)}; else if (K::id == 1) x = polar(si(a), si(b), si(d)); else x = equatorial(si(a), si(b), si(d));
    v = x; PBT_SAY(c, K::name() << " " << a << ", " << b << ", " << d << " = " << x << " SI");
    return t;
}
// single-precision representations; `slackf` is the relative displacement that a chain through them may cause
typedef bu::quantity<bu::si::length, float> mf_q; typedef bu::quantity<bu::cgs::length, float> cmf_q; typedef bu::quantity<bu::si::plane_angle, float> radf_q; typedef bu::quantity<bu::degree::plane_angle, float> degf_q;
inline L si(const mf_q& q) { return q.value(); }
inline L si(const cmf_q& q) { return static_cast<L>(q.value()) / 100; }
inline L si(const radf_q& q) { return q.value(); }
inline L si(const degf_q& q) { return static_cast<L>(q.value()) * DEG_L; }
typedef bac::cartesian_representation<float, mf_q, mf_q, mf_q> CF1;
typedef bac::cartesian_representation<float, cmf_q, mf_q, cmf_q> CF2;
typedef bac::spherical_representation<float, radf_q, radf_q, mf_q> SF1;
typedef bac::spherical_representation<float, degf_q, radf_q, cmf_q> SF2;
typedef bac::spherical_equatorial_representation<float, radf_q, radf_q, mf_q> EF1;
typedef bac::spherical_equatorial_representation<float, radf_q, degf_q, cmf_q> EF2;
typedef std::tuple<CF1, CF2, SF1, SF2, EF1, EF2> float_reps;
const u64 n_float_reps = 6;
const L EPSF = 1.1920929e-7L;
inline L polar_slackf(const V3& v) { L r = norm(v); if (r == 0) return 0; L s = std::sqrt(v.x * v.x + v.y * v.y) / r; return std::min(2e-3L, 16 * EPSF / std::max(s, 1e-9L)) + 64 * EPSF; }
template <class T> T gen_float_rep(Case& c, double emin, double emax, V3& v) {
    typedef kind<T> K; typedef typename T::quantity1 A; typedef typename T::quantity2 B; typedef typename T::quantity3 D; L w[3];
    if (K::id == 0) { V3 x = vector_si(c, emin, emax); w[0] = x.x; w[1] = x.y; w[2] = x.z; }
    else { w[0] = angle_deg(c, -180, 180) * PI_L / 180; w[1] = (K::id == 1 ? angle_deg(c, 0, 180) : angle_deg(c, -90, 90)) * PI_L / 180; w[2] = c.scaled(emin, emax, false); }
    A a = A::from_value(static_cast<float>(w[0] / per_unit<A>::get())); B b = B::from_value(static_cast<float>(w[1] / per_unit<B>::get())); D d = D::from_value(static_cast<float>(w[2] / per_unit<D>::get()));
    v = K::id == 0 ? V3{si(a), si(b), si(d)} : K::id == 1 ? polar(si(a), si(b), si(d)) : equatorial(si(a), si(b), si(d)); PBT_SAY(c, "float " << K::name() << " " << a << ", " << b << ", " << d << " = " << v << " SI");
    return T(a, b, d);
}
}
