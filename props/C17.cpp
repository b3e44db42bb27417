// C17: frames and sky points keep their data; separations are spherical angles.
#include "reps.hpp"
#include <boost/units/systems/cgs/velocity.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
using namespace coord;
namespace pbt {
const char* const property_id = "C17";
const char* const property_rule = "histories of 1..10 operations (construction from components, from representations and differentials in other units, copy, assignment, every setter, replaced motion, frame parameters, sky point in and out) on 7 frames x 3 unit sets against a record of components; separations and position angles of independent, equal, nearly equal, opposite, polar and date-line directions against long double vectors; non-trivial: at least one setter or conversion of units (histories), directions that differ (angles)";
}
typedef bu::quantity<bu::si::velocity> ms_q; typedef bu::quantity<bu::cgs::velocity> cms_q; typedef bu::quantity<bu::divide_typeof_helper<bau::length_parsec, bu::si::time>::type> pcs_q;
namespace coord { inline L si(const ms_q& q) { return q.value(); } inline L si(const cms_q& q) { return static_cast<L>(q.value()) / 100; } inline L si(const pcs_q& q) { return static_cast<L>(q.value()) * 3.0856775813e16L; } }
using coord::si;
typedef bac::spherical_coslat_differential<double, rad_q, rad_q, ms_q> L1; typedef bac::spherical_coslat_differential<double, deg_q, deg_q, cms_q> L2; typedef bac::spherical_coslat_differential<double, rad_q, deg_q, pcs_q> L3;
template <class Q> L unit_of() { return si(Q::from_value(1)); }
template <class Q> Q q_of(L v) { return Q::from_value(double(v / unit_of<Q>())); }
template <class F> struct fr;
#define FRAME(F, G1, G2, GT, P1, P2, PT, S1_, S2_, ST, T1, T2, TT) template <class R, class D> struct fr<bac::F<R, D>> { typedef bac::F<R, D> T; static const char* name() { return #F; } \
    static auto get(const T& t) { return std::make_tuple(t.G1(), t.G2(), t.get_distance(), t.P1(), t.P2(), t.get_radial_velocity()); } static auto pos(const T& t) { return t.GT(); } static auto mot(const T& t) { return t.PT(); } \
    template <class A, class B, class C> static void set(T& t, int i, A a, B b, C c) { if (i == 0) t.S1_(a); else if (i == 1) t.S2_(b); else if (i == 2) t.set_distance(c); else t.ST(a, b, c); } \
    template <class A, class B, class C> static void setm(T& t, int i, A a, B b, C c) { if (i == 0) t.T1(a); else if (i == 1) t.T2(b); else if (i == 2) t.set_radial_velocity(c); else t.TT(a, b, c); } };
FRAME(icrs, get_dec, get_ra, get_dec_ra_dist, get_pm_dec, get_pm_ra_cosdec, get_pm_dec_ra_radial, set_dec, set_ra, set_dec_ra_dist, set_pm_dec, set_pm_ra_cosdec, set_pm_dec_ra_radial)
FRAME(cirs, get_dec, get_ra, get_dec_ra_dist, get_pm_dec, get_pm_ra_cosdec, get_pm_dec_ra_radial, set_dec, set_ra, set_dec_ra_dist, set_pm_dec, set_pm_ra_cosdec, set_pm_dec_ra_radial)
FRAME(galactic, get_b, get_l, get_b_l_dist, get_pm_b, get_pm_l_cosb, get_pm_b_l_radial, set_b, set_l, set_b_l_dist, set_pm_b, set_pm_l_cosb, set_pm_b_l_radial)
FRAME(supergalactic, get_sgb, get_sgl, get_sgb_sgl_dist, get_pm_sgb, get_pm_sgl_cossgb, get_pm_sgb_sgl_radial, set_sgb, set_sgl, set_sgb_sgl_dist, set_pm_sgb, set_pm_sgl_cossgb, set_pm_sgb_sgl_radial)
FRAME(alt_az, get_alt, get_az, get_alt_az_dist, get_pm_alt, get_pm_az_cosalt, get_pm_alt_az_radial, set_alt, set_az, set_alt_az_dist, set_pm_alt, set_pm_az_cosalt, set_pm_alt_az_radial)
FRAME(geocentric, get_lat, get_lon, get_lat_lon_dist, get_pm_lat, get_pm_lon_coslat, get_pm_lat_lon_radial, set_lat, set_lon, set_lat_lon_dist, set_pm_lat, set_pm_lon_coslat, set_pm_lat_lon_radial)
FRAME(heliocentric, get_lat, get_lon, get_lat_lon_dist, get_pm_lat, get_pm_lon_coslat, get_pm_lat_lon_radial, set_lat, set_lon, set_lat_lon_dist, set_pm_lat, set_pm_lon_coslat, set_pm_lat_lon_radial)
template <class R, class D> using frames_of = std::tuple<bac::icrs<R, D>, bac::cirs<R, D>, bac::galactic<R, D>, bac::supergalactic<R, D>, bac::alt_az<R, D>, bac::geocentric<R, D>, bac::heliocentric<R, D>>;
typedef decltype(std::tuple_cat(std::declval<frames_of<S1, L1>>(), std::declval<frames_of<S2, L2>>(), std::declval<frames_of<S3, L3>>())) all_frames; const u64 n_frames = 21;
struct Extra { boost::posix_time::ptime time; double pressure = 0, temperature = 0, humidity = 0; double loc[3] = {0, 0, 0}; };
typedef bac::spherical_equatorial_representation<double, deg_q, deg_q> place_t;
static boost::posix_time::ptime gen_time(Case& c) { namespace g = boost::gregorian; return boost::posix_time::ptime(g::date(static_cast<unsigned short>(1400 + c.below(2600)), static_cast<unsigned short>(1 + c.below(12)), static_cast<unsigned short>(1 + c.below(28))), boost::posix_time::microseconds(static_cast<long long>(c.below(86400000000ULL)))); }
template <class F> struct ex { static int count() { return 0; } static void set(F&, Extra&, Case&) {} static void check(const F&, const Extra&) {} };
template <class R, class D> struct ex<bac::cirs<R, D>> { typedef bac::cirs<R, D> F; static int count() { return 1; } static void set(F& f, Extra& e, Case& c) { e.time = gen_time(c); f.set_obs_time(e.time); } static void check(const F& f, const Extra& e) { PBT_CHECK(f.get_obs_time() == e.time, "observation time"); } };
template <class F> struct ecl { static int count() { return 1; } static void set(F& f, Extra& e, Case& c) { e.time = gen_time(c); f.set_equinox(e.time); } static void check(const F& f, const Extra& e) { PBT_CHECK(f.get_equinox() == e.time, "equinox"); } };
template <class R, class D> struct ex<bac::geocentric<R, D>> : ecl<bac::geocentric<R, D>> {}; template <class R, class D> struct ex<bac::heliocentric<R, D>> : ecl<bac::heliocentric<R, D>> {};
template <class R, class D> struct ex<bac::alt_az<R, D>> { typedef bac::alt_az<R, D> F; static int count() { return 1; }
    static place_t place(const Extra& e) { return place_t(deg_q::from_value(e.loc[0]), deg_q::from_value(e.loc[1]), one_q::from_value(e.loc[2])); }
    static void gen_place(Extra& e, Case& c) { e.loc[0] = angle_deg(c, -180, 180); e.loc[1] = angle_deg(c, -90, 90); e.loc[2] = c.scaled(-3, 7, false); }
    static void set(F& f, Extra& e, Case& c) {
        u64 w = c.below(6); PBT_SAY(c, "parameter " << w); double p = c.scaled(-3, 6, false), t = c.scaled(-3, 3), h = c.unit();
        switch (w) { case 0: e.time = gen_time(c); f.set_obs_time(e.time); break; case 1: e.pressure = p; f.set_pressure(p * bu::si::pascals); break; case 2: e.temperature = t; f.set_temprature(t * bu::celsius::degrees); break; case 3: e.humidity = h; f.set_relative_humidity(one_q::from_value(h)); break; case 4: gen_place(e, c); f.set_location(place(e)); break;
        default: e.time = gen_time(c); e.pressure = p; e.temperature = t; e.humidity = h; gen_place(e, c); f.set_frame_parameters(place(e), p * bu::si::pascals, t * bu::celsius::degrees, e.time, one_q::from_value(h)); } }
    static void same_place(const place_t& p, const Extra& e) { PBT_CHECK(close(p.get_lat().value(), e.loc[0], 8 * EPS) && close(p.get_lon().value(), e.loc[1], 8 * EPS) && p.get_dist().value() == e.loc[2], "location is " << p.get_lat() << " " << p.get_lon() << " " << p.get_dist()); }
    static void check(const F& f, const Extra& e) {
        PBT_CHECK(f.get_obs_time() == e.time, "observation time"); PBT_EQ(f.get_pressure().value(), e.pressure, "pressure"); PBT_EQ(f.get_temprature().value(), e.temperature, "temperature"); PBT_EQ(f.get_relative_humidity().value(), e.humidity, "humidity"); same_place(f.get_location(), e);
        auto t = f.get_frame_parameters(); same_place(std::get<0>(t), e); PBT_CHECK(std::get<1>(t).value() == e.pressure && std::get<2>(t).value() == e.temperature && std::get<3>(t) == e.time && std::get<4>(t).value() == e.humidity, "frame parameters differ from the single ones"); } };
struct Model { L v[6] = {0, 0, 0, 0, 0, 0}; Extra e; };
template <class T> void compare(const T& t, const Model& m, const char* when) {
    auto g = fr<T>::get(t); L got[6] = {si(std::get<0>(g)), si(std::get<1>(g)), si(std::get<2>(g)), si(std::get<3>(g)), si(std::get<4>(g)), si(std::get<5>(g))};
    static const char* const n[6] = {"latitude", "longitude", "distance", "latitude motion", "longitude motion", "radial velocity"};
    for (int i = 0; i < 6; i++) PBT_CHECK(close(got[i], m.v[i], 16 * EPS), fr<T>::name() << " " << when << ": " << n[i] << " is " << got[i] << ", expected " << m.v[i]);
    PBT_CHECK(fr<T>::pos(t) == std::make_tuple(std::get<0>(g), std::get<1>(g), std::get<2>(g)), fr<T>::name() << " " << when << ": tuple of coordinates"); PBT_CHECK(fr<T>::mot(t) == std::make_tuple(std::get<3>(g), std::get<4>(g), std::get<5>(g)), fr<T>::name() << " " << when << ": tuple of motions");
    PBT_CHECK(t.get_proper_motion() == std::make_tuple(std::get<3>(g), std::get<4>(g)), fr<T>::name() << " " << when << ": proper motion");
    const bac::base_frame<typename T::representation, typename T::differential>& b = t; PBT_CHECK(b.get_radial_velocity() == std::get<5>(g), fr<T>::name() << " " << when << ": radial velocity of the base frame");
    auto r = t.get_data(); PBT_CHECK(r.get_lat() == std::get<0>(g) && r.get_lon() == std::get<1>(g) && r.get_dist() == std::get<2>(g), fr<T>::name() << " " << when << ": data"); auto d = t.get_differential(); PBT_CHECK(d.get_dlat() == std::get<3>(g) && d.get_dlon_coslat() == std::get<4>(g) && d.get_ddist() == std::get<5>(g), fr<T>::name() << " " << when << ": differential");
    ex<T>::check(t, m.e);
}
struct Six { L v[6]; };
static Six gen_six(Case& c) { Six s; s.v[0] = angle_deg(c, -90, 90) * PI_L / 180; s.v[1] = angle_deg(c, -180, 360) * PI_L / 180; s.v[2] = c.scaled(-10, 15, false); s.v[3] = c.chance(1, 4) ? 0 : c.scaled(-9, 1); s.v[4] = c.chance(1, 4) ? 0 : c.scaled(-9, 1); s.v[5] = c.scaled(-6, 9); return s; }
template <class R, class D> struct Args { typename R::quantity1 a; typename R::quantity2 b; typename R::quantity3 d; typename D::quantity1 p; typename D::quantity2 q; typename D::quantity3 v;
    explicit Args(const Six& s) : a(q_of<typename R::quantity1>(s.v[0])), b(q_of<typename R::quantity2>(s.v[1])), d(q_of<typename R::quantity3>(s.v[2])), p(q_of<typename D::quantity1>(s.v[3])), q(q_of<typename D::quantity2>(s.v[4])), v(q_of<typename D::quantity3>(s.v[5])) {} };
template <class T> struct Build { Case& c; const Six& s; bool motion; T out; template <class P> void run() { typedef typename std::tuple_element<0, P>::type R; typedef typename std::tuple_element<1, P>::type D; Args<R, D> a(s); R r(a.a, a.b, a.d); D d(a.p, a.q, a.v); if (motion) out = T(r, d); else out = T(r); } };
typedef std::tuple<std::pair<S1, L1>, std::pair<S2, L2>, std::pair<S3, L3>, std::pair<S1, L3>> arg_types;
struct History { Case& c; template <class T> void run() {
    typedef Args<typename T::representation, typename T::differential> A; T t; Model m; bool act = false; std::size_t n = 1 + c.below(10); c.label(fr<T>::name());
    compare(t, m, "by default");
    for (std::size_t i = 0; i < n; i++) {
        Six s = gen_six(c); A a(s); u64 op = c.below(12); PBT_SAY(c, "op " << op << ": " << a.a << ", " << a.b << ", " << a.d << ", " << a.p << ", " << a.q << ", " << a.v);
        switch (op) {
        case 0: t = T(a.a, a.b, a.d); m = Model(); for (int k = 0; k < 3; k++) m.v[k] = s.v[k]; break;
        case 1: t = T(a.a, a.b, a.d, a.p, a.q, a.v); m = Model(); for (int k = 0; k < 6; k++) m.v[k] = s.v[k]; break;
        case 2: { Build<T> b{c, s, c.flag(), T()}; pick_type(c.below(4), static_cast<arg_types*>(nullptr), b); t = b.out; m = Model(); for (int k = 0; k < (b.motion ? 6 : 3); k++) m.v[k] = s.v[k]; act = true; break; }
        case 3: case 4: { int w = static_cast<int>(c.below(4)); fr<T>::set(t, w, a.a, a.b, a.d); for (int k = 0; k < 3; k++) if (w == k || w == 3) m.v[k] = s.v[k]; act = true; break; }
        case 5: case 6: { int w = static_cast<int>(c.below(4)); fr<T>::setm(t, w, a.p, a.q, a.v); for (int k = 0; k < 3; k++) if (w == k || w == 3) m.v[3 + k] = s.v[3 + k]; act = true; break; }
        case 7: { typename T::differential d(a.p, a.q, a.v); t.set_differential(d); for (int k = 3; k < 6; k++) m.v[k] = s.v[k]; act = true; break; }
        case 8: { T u(t); fr<T>::set(t, 3, a.a, a.b, a.d); compare(u, m, "copied"); t = u; break; }
        case 9: { bac::sky_point<T> p(t); compare(p.get_point(), m, "in a sky point"); bac::sky_point<T> q; q.set_point(t); t = q.get_point(); break; }
        case 10: {
            if (c.flag()) { bac::sky_point<T> p(a.a, a.b, a.d, a.p, a.q, a.v); m = Model(); for (int k = 0; k < 6; k++) m.v[k] = s.v[k]; t = p.get_point(); }
            else if (c.flag()) { bac::sky_point<T> p(a.a, a.b, a.d); m = Model(); for (int k = 0; k < 3; k++) m.v[k] = s.v[k]; t = p.get_point(); }
            else { typename T::representation r(a.a, a.b, a.d); typename T::differential d(a.p, a.q, a.v); bac::sky_point<T> p(r, d); m = Model(); for (int k = 0; k < 6; k++) m.v[k] = s.v[k]; t = p.get_point(); }
            break; }
        default: if (ex<T>::count()) { ex<T>::set(t, m.e, c); act = true; } break;
        }
        compare(t, m, "after the operation");
    }
    c.nontrivial(act); } };
PBT_PROP(histories, 3000000, 30000000) { History h{c}; pick_type(c.below(n_frames), static_cast<all_frames*>(nullptr), h); }
static V3 direction(L lat, L lon) { return equatorial(lon, lat, 1); }
struct Angles { Case& c; template <class T> void run() {
    typedef typename T::representation R; typedef typename T::differential D; typedef Args<R, D> A; Six s = gen_six(c), u = gen_six(c); u64 rel = c.below(7);
    if (rel == 1) { u.v[0] = s.v[0]; u.v[1] = s.v[1]; } else if (rel == 2) { u.v[0] = -s.v[0]; u.v[1] = s.v[1] + PI_L; } else if (rel == 3) { u.v[0] = std::max(-PI_L / 2, std::min(PI_L / 2, s.v[0] + static_cast<L>(c.scaled(-15, -3)))); u.v[1] = s.v[1] + static_cast<L>(c.scaled(-15, -3)); } else if (rel == 4) { s.v[0] = c.flag() ? PI_L / 2 : -PI_L / 2; } else if (rel == 5) { s.v[1] = PI_L - 1e-3L; u.v[1] = -PI_L + 1e-3L; }
    A a(s), b(u); T p(a.a, a.b, a.d), q(b.a, b.b, b.d); c.label("relation " + std::to_string(rel)); c.nontrivial(rel != 1); PBT_SAY(c, fr<T>::name() << ": " << a.a << ", " << a.b << ", " << a.d << " and " << b.a << ", " << b.b << ", " << b.d);
    L la = si(a.a), lo = si(a.b), lb = si(b.a), lp = si(b.b); V3 v = direction(la, lo), w = direction(lb, lp); L want = std::atan2(norm(cross3(v, w)), dot3(v, w)), tol = 16 * EPS * (3 + std::fabs(la) + std::fabs(lo) + std::fabs(lb) + std::fabs(lp));
    bac::sky_point<T> sp(p), sq(q);
    L d[4] = {static_cast<L>(p.get_angular_separation(q).value()), static_cast<L>(q.get_angular_separation(p).value()), static_cast<L>(sp.separation(sq).value()), static_cast<L>(sq.separation(sp).value())};
    for (int i = 0; i < 4; i++) PBT_CHECK(std::isfinite(d[i]) && d[i] >= 0 && d[i] <= PI_L + tol && std::fabs(d[i] - want) <= tol, "separation (" << i << ") is " << d[i] << ", expected " << want);
    L self = p.get_angular_separation(p).value(); PBT_CHECK(self >= 0 && self <= tol, "separation from itself is " << self);
    // position angle: direction of (sin(east), ...) in the tangent plane, compared where it is defined
    L x = std::sin(lb) * std::cos(la) - std::cos(lb) * std::sin(la) * std::cos(lp - lo), y = std::cos(lb) * std::sin(lp - lo), h = std::sqrt(x * x + y * y); L pa = sp.positional_angle(sq).value();
    PBT_CHECK(std::isfinite(pa) && std::fabs(pa) <= PI_L + 4 * EPS, "position angle is " << pa); PBT_CHECK(std::fabs(h * std::cos(pa) - x) <= 2 * tol && std::fabs(h * std::sin(pa) - y) <= 2 * tol, "position angle is " << pa << ", expected " << std::atan2(y, x));
    compare(p, [&] { Model m; for (int k = 0; k < 3; k++) m.v[k] = s.v[k]; return m; }(), "after measuring"); } };
PBT_PROP(angles, 3000000, 30000000) { Angles h{c}; pick_type(c.below(n_frames), static_cast<all_frames*>(nullptr), h); }
// a frame made of a spherical equatorial representation: the same point
template <class T> struct FromEquatorial { Case& c; template <class R> void run() { V3 v; L slack = 0; R r = gen_rep<R>(c, -6, 15, v, slack, false); Six s = gen_six(c); typedef typename T::differential D; D d(q_of<typename D::quantity1>(s.v[3]), q_of<typename D::quantity2>(s.v[4]), q_of<typename D::quantity3>(s.v[5])); bool m = c.flag(); T t = m ? T(r, d) : T(r);
    auto x = t.get_data(); same_vector(polar(si(x.get_lat()), si(x.get_lon()), si(x.get_dist())), v, norm(v) * (slack + polar_slack(v) + 256 * EPS) + 1e-300L, std::string(fr<T>::name()) + " made of a spherical equatorial representation"); auto g = t.get_differential(); if (m) PBT_CHECK(close(si(g.get_dlat()), s.v[3], 16 * EPS) && close(si(g.get_dlon_coslat()), s.v[4], 16 * EPS) && close(si(g.get_ddist()), s.v[5], 16 * EPS), "motion of a frame made of a representation and a differential"); c.nontrivial(norm(v) > 0); } };
struct Equatorials { Case& c; template <class T> void run() { FromEquatorial<T> f{c}; pick_type(c.below(3), static_cast<std::tuple<E1, E2, E3>*>(nullptr), f); } };
PBT_PROP(from_equatorial, 600000, 6000000) { Equatorials f{c}; pick_type(c.below(n_frames), static_cast<all_frames*>(nullptr), f); }
PBT_PROP(equivalent_systems, 4, 4) {
    bac::sky_point<bac::icrs<S1, L1>> a; bac::sky_point<bac::icrs<S2, L2>> b; bac::sky_point<bac::cirs<S1, L1>> d; bac::sky_point<bac::icrs<S1, L1>> e; c.nontrivial();
    PBT_CHECK(a.is_equivalent_system(e) && e.is_equivalent_system(a), "the same system is not equivalent"); PBT_CHECK(!a.is_equivalent_system(d) && !d.is_equivalent_system(a), "icrs and cirs are equivalent"); (void)b;
}
