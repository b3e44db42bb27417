// C21: coordinate types of two angles.
#include "coord.hpp"
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
using namespace coord;
namespace bac = boost::astronomy::coordinate;
namespace pbt {
const char* const property_id = "C21";
const char* const property_rule = "histories of 1..8 operations (constructor, factory, pair setter, single setters, copy, assignment, printing) with angles from 1e-9 degrees to two turns, on 5 coordinate types x 6 unit and number types (degrees/radians in both positions, float, long double) against a record of two angles; non-trivial: a single setter or mixed units";
}
template <class N> using radq = bu::quantity<bu::si::plane_angle, N>;
template <class N> using degq = bu::quantity<bu::degree::plane_angle, N>;
template <class N> L rad(const radq<N>& q) { return static_cast<L>(q.value()); }
template <class N> L rad(const degq<N>& q) { return static_cast<L>(q.value()) * DEG_L; }
template <class T> struct tr;
#define COORD(NAME, G1, G2, G12, S1_, S2_, S12, MAKE, T1, T2) template <class N, class A, class B> struct tr<bac::NAME<N, A, B>> { typedef bac::NAME<N, A, B> T; typedef N num; typedef A q1; typedef B q2; static const char* name() { return #NAME; } \
    static A g1(const T& t) { return t.G1(); } static B g2(const T& t) { return t.G2(); } static std::tuple<A, B> g12(const T& t) { return t.G12(); } static void s1(T& t, A a) { t.S1_(a); } static void s2(T& t, B b) { t.S2_(b); } static void s12(T& t, A a, B b) { t.S12(a, b); } static T make(A a, B b) { return bac::MAKE(a, b); } static const char* h1() { return T1; } static const char* h2() { return T2; } };
COORD(horizon_coord, get_altitude, get_azimuth, get_altitude_azimuth, set_altitude, set_azimuth, set_altitude_azimuth, make_horizon_coord, "Horizon Coordinate (Altitude: ", ", Azimuth: ")
COORD(equatorial_ha_coord, get_ha, get_dec, get_ha_dec, set_ha, set_dec, set_ha_dec, make_equatorial_ha_coord, "Equatorial Coordinate (Hour Angle: ", ", Declination: ")
COORD(equatorial_ra_coord, get_ra, get_dec, get_ra_dec, set_ra, set_dec, set_ra_dec, make_equatorial_ra_coord, "Equatorial Coordinate (Right Ascension: ", ", Declination: ")
COORD(ecliptic_coord, get_lat, get_lon, get_lat_lon, set_lat, set_lon, set_lat_lon, make_ecliptic_coord, "Ecliptic Coordinate (Ecliptic Latitude: ", ", Ecliptic Longitude: ")
COORD(galactic_coord, get_lat, get_lon, get_lat_lon, set_lat, set_lon, set_lat_lon, make_galactic_coord, "Galactic Coordinate (Galactic Latitude: ", ", Galactic Longitude: ")
template <template <class, class, class> class T> using variants = std::tuple<T<double, radq<double>, radq<double>>, T<double, degq<double>, degq<double>>, T<double, degq<double>, radq<double>>, T<double, radq<double>, degq<double>>, T<float, degq<float>, radq<float>>, T<long double, radq<long double>, degq<long double>>>;
typedef decltype(std::tuple_cat(std::declval<variants<bac::horizon_coord>>(), std::declval<variants<bac::equatorial_ha_coord>>(), std::declval<variants<bac::equatorial_ra_coord>>(), std::declval<variants<bac::ecliptic_coord>>(), std::declval<variants<bac::galactic_coord>>())) all_coords; const u64 n_coords = 30;
template <class T> void same(const T& t, L a, L b, const char* when) {
    typedef tr<T> R; L e = 8 * static_cast<L>(std::numeric_limits<typename R::num>::epsilon()); if (e < 1e-17L) e = 1e-15L; L x = rad(R::g1(t)), y = rad(R::g2(t));
    PBT_CHECK(close(x, a, e) && close(y, b, e), R::name() << " " << when << ": " << x << ", " << y << ", expected " << a << ", " << b); PBT_CHECK(R::g12(t) == std::make_tuple(R::g1(t), R::g2(t)), R::name() << " " << when << ": the pair differs from the angles");
    L p = static_cast<L>(boost::geometry::get<0>(t.get_point())), q = static_cast<L>(boost::geometry::get<1>(t.get_point())); PBT_CHECK(close(p, a, e) && close(q, b, e), R::name() << " " << when << ": the point is " << p << ", " << q << " radians");
}
struct History { Case& c; template <class T> void run() {
    typedef tr<T> R; typedef typename R::num num; typedef typename R::q1 A; typedef typename R::q2 B; bool act = !std::is_same<A, B>::value; c.label(R::name()); L a = 0, b = 0; L u1 = rad(A::from_value(1)), u2 = rad(B::from_value(1));
    auto gen = [&](A& x, B& y) { x = A::from_value(static_cast<num>(angle_deg(c, -720, 720) * PI_L / 180 / u1)); y = B::from_value(static_cast<num>(angle_deg(c, -720, 720) * PI_L / 180 / u2)); };
    A x; B y; gen(x, y); T t; if (c.flag()) t = T(x, y); else t = R::make(x, y); a = rad(x); b = rad(y); PBT_SAY(c, R::name() << " " << x << ", " << y); same(t, a, b, "as made");
    for (std::size_t n = c.below(8), i = 0; i < n; i++) {
        gen(x, y); u64 op = c.below(7); PBT_SAY(c, "op " << op << " " << x << ", " << y); T before(t); L a0 = a, b0 = b;
        switch (op) { case 0: R::s1(t, x); a = rad(x); act = true; break; case 1: R::s2(t, y); b = rad(y); act = true; break; case 2: R::s12(t, x, y); a = rad(x); b = rad(y); break; case 3: { T k(x, y); t = k; a = rad(x); b = rad(y); break; } case 4: t = R::make(x, y); a = rad(x); b = rad(y); break;
        case 5: { std::ostringstream o, e; o << t; e << R::h1() << R::g1(t) << R::h2() << R::g2(t) << ")"; PBT_EQ(o.str(), e.str(), "printed text"); break; } default: { T k(t); R::s12(k, x, y); same(k, rad(x), rad(y), "copied and set"); } }
        same(t, a, b, "after the operation"); same(before, a0, b0, "earlier copy");
    }
    c.nontrivial(act); } };
PBT_PROP(histories, 2000000, 30000000) { History h{c}; pick_type(c.below(n_coords), static_cast<all_coords*>(nullptr), h); }
