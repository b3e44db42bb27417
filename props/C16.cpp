// C16: differentials behave as vectors.
#include "coord.hpp"
#include <boost/units/systems/cgs/velocity.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/units/systems/cgs/time.hpp>
#include <boost/units/base_units/metric/minute.hpp>
#include <boost/units/base_units/metric/hour.hpp>
#include <boost/units/base_units/metric/day.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
using namespace coord;
namespace bac = boost::astronomy::coordinate;
namespace pbt {
const char* const property_id = "C16";
const char* const property_rule = "velocity vectors over 24 decades (axes, poles, zero, quadrant boundaries, angles beyond one turn) in 11 differential types: cartesian, spherical, spherical equatorial and cos(lat)-scaled, uniform and mixed units; chains of 1..6 conversions, sums of all 121 pairs, products with times of either sign in seconds (SI and cgs), minutes, hours and days, setters, raw points, magnitude and direction, compared with long double vectors; non-trivial: non-zero vectors and a change of kind (chains, sums) or any other operation";
}
typedef bu::quantity<bu::si::velocity> ms_q; typedef bu::quantity<bu::cgs::velocity> cms_q;
typedef bu::quantity<bu::divide_typeof_helper<bau::length_parsec, bu::si::time>::type> pcs_q;
namespace coord { inline L si(const ms_q& q) { return q.value(); } inline L si(const cms_q& q) { return static_cast<L>(q.value()) / 100; } inline L si(const pcs_q& q) { return static_cast<L>(q.value()) * 3.0856775813e16L; } }
using coord::si;
template <class Q> L unit_of() { return si(Q::from_value(1)); }
typedef bac::cartesian_differential<double, ms_q, ms_q, ms_q> C1; typedef bac::cartesian_differential<double, cms_q, pcs_q, ms_q> C2;
typedef bac::spherical_differential<double, rad_q, rad_q, ms_q> S1; typedef bac::spherical_differential<double, deg_q, deg_q, cms_q> S2; typedef bac::spherical_differential<double, deg_q, rad_q, pcs_q> S3;
typedef bac::spherical_equatorial_differential<double, rad_q, rad_q, ms_q> E1; typedef bac::spherical_equatorial_differential<double, deg_q, deg_q, cms_q> E2; typedef bac::spherical_equatorial_differential<double, rad_q, deg_q, pcs_q> E3;
typedef bac::spherical_coslat_differential<double, rad_q, rad_q, ms_q> L1; typedef bac::spherical_coslat_differential<double, deg_q, deg_q, cms_q> L2; typedef bac::spherical_coslat_differential<double, deg_q, rad_q, pcs_q> L3;
typedef std::tuple<C1, C2, S1, S2, S3, E1, E2, E3, L1, L2, L3> all; const u64 n_all = 11;
template <class T> struct kd;
#define UNITS(f) template <class R> static auto make(const R& r) { return bac::f(r); } \
    template <class R> static auto make_units(const R& r) { return bac::f<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3, typename R::type, typename R::quantity1, typename R::quantity2, typename R::quantity3>(r); } \
    template <class P> static auto make_point(const P& p) { return bac::f<typename T::type, typename T::quantity1, typename T::quantity2, typename T::quantity3>(p); } \
    static T make3(typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { return bac::f(a, b, d); }
template <class... A> struct kd<bac::cartesian_differential<A...>> { typedef bac::cartesian_differential<A...> T; enum { id = 0 }; static const char* name() { return "cartesian"; }
    static auto parts(const T& t) { return std::make_tuple(t.get_dx(), t.get_dy(), t.get_dz()); } static auto tuple(const T& t) { return t.get_dx_dy_dz(); }
    static V3 vec(const T& t) { return V3{si(t.get_dx()), si(t.get_dy()), si(t.get_dz())}; } UNITS(make_cartesian_differential)
    static void set(T& t, int i, typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { if (i == 0) t.set_dx(a); else if (i == 1) t.set_dy(b); else if (i == 2) t.set_dz(d); else t.set_dx_dy_dz(a, b, d); } };
template <class T_> struct ang { typedef T_ T;
    static auto parts(const T& t) { return std::make_tuple(t.get_dlat(), t.get_dlon(), t.get_ddist()); } static auto tuple(const T& t) { return t.get_dlat_dlon_ddist(); }
    static void set(T& t, int i, typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { if (i == 0) t.set_dlat(a); else if (i == 1) t.set_dlon(b); else if (i == 2) t.set_ddist(d); else t.set_dlat_dlon_ddist(a, b, d); } };
template <class... A> struct kd<bac::spherical_differential<A...>> : ang<bac::spherical_differential<A...>> { typedef bac::spherical_differential<A...> T; enum { id = 1 }; static const char* name() { return "spherical"; }
    static V3 vec(const T& t) { return polar(si(t.get_dlat()), si(t.get_dlon()), si(t.get_ddist())); } UNITS(make_spherical_differential) };
template <class... A> struct kd<bac::spherical_equatorial_differential<A...>> : ang<bac::spherical_equatorial_differential<A...>> { typedef bac::spherical_equatorial_differential<A...> T; enum { id = 2 }; static const char* name() { return "spherical equatorial"; }
    static V3 vec(const T& t) { return equatorial(si(t.get_dlat()), si(t.get_dlon()), si(t.get_ddist())); } UNITS(make_spherical_equatorial_differential) };
template <class... A> struct kd<bac::spherical_coslat_differential<A...>> { typedef bac::spherical_coslat_differential<A...> T; enum { id = 3 }; static const char* name() { return "cos(lat)"; }
    static auto parts(const T& t) { return std::make_tuple(t.get_dlat(), t.get_dlon_coslat(), t.get_ddist()); } static auto tuple(const T& t) { return t.get_dlat_dlon_coslat_ddist(); }
    static V3 vec(const T& t) { return polar(si(t.get_dlat()), si(t.get_dlon_coslat()) / std::cos(si(t.get_dlat())), si(t.get_ddist())); } UNITS(make_spherical_coslat_differential)
    static void set(T& t, int i, typename T::quantity1 a, typename T::quantity2 b, typename T::quantity3 d) { if (i == 0) t.set_dlat(a); else if (i == 1) t.set_dlon_coslat(b); else if (i == 2) t.set_ddist(d); else t.set_dlat_dlon_coslat_ddist(a, b, d); } };
template <class T> V3 vec(const T& t) { return kd<T>::vec(t); }
template <class T> std::string show(const T& t) { auto p = kd<T>::parts(t); std::ostringstream o; o << std::setprecision(17) << kd<T>::name() << " " << std::get<0>(p) << ", " << std::get<1>(p) << ", " << std::get<2>(p) << " = " << vec(t); return o.str(); }
template <class T> T gen(Case& c, V3& v, L& slack) {
    typename T::quantity1 a; typename T::quantity2 b; typename T::quantity3 d; const int id = kd<T>::id; L u1 = unit_of<typename T::quantity1>(), u2 = unit_of<typename T::quantity2>(), u3 = unit_of<typename T::quantity3>();
    if (id == 0) { V3 w = vector_si(c, -12, 12); a = T::quantity1::from_value(double(w.x / u1)); b = T::quantity2::from_value(double(w.y / u2)); d = T::quantity3::from_value(double(w.z / u3)); slack = 8 * EPS; }
    else {
        bool w = c.chance(1, 4); double l1 = w ? angle_deg(c, -720, 720) : angle_deg(c, -180, 180), l2 = w ? angle_deg(c, -360, 360) : id == 2 ? angle_deg(c, -90, 90) : angle_deg(c, 0, 180), r = c.chance(1, 16) ? 0 : c.scaled(-12, 12, false); L cz = 1;
        if (id == 3) { cz = std::cos(l1 * PI_L / 180); if (std::fabs(cz) < 1e-3L) { l1 = 30; cz = std::cos(l1 * PI_L / 180); } }
        a = T::quantity1::from_value(double(l1 * PI_L / 180 / u1)); b = T::quantity2::from_value(double(l2 * PI_L / 180 * cz / u2)); d = T::quantity3::from_value(double(r / u3));
        slack = 16 * EPS * (2 + std::fabs(si(a)) + std::fabs(si(b) / cz)) * (1 + std::fabs(si(a)) / std::fabs(cz));
    }
    T t(a, b, d); v = id == 0 ? V3{si(a), si(b), si(d)} : id == 1 ? polar(si(a), si(b), si(d)) : id == 2 ? equatorial(si(a), si(b), si(d)) : polar(si(a), si(b) / std::cos(si(a)), si(d));
    { auto p = kd<T>::parts(t); L e = id ? 4 * EPS : 0; PBT_CHECK(close(si(std::get<0>(p)), si(a), e) && close(si(std::get<1>(p)), si(b), e) && std::get<2>(p) == d, "a " << kd<T>::name() << " differential made from " << a << ", " << b << ", " << d << " returns " << std::get<0>(p) << ", " << std::get<1>(p) << ", " << std::get<2>(p)); }
    PBT_SAY(c, show(t)); return t;
}
static bool coslat_ok(const V3& v) { L rho = std::sqrt(v.x * v.x + v.y * v.y), r = norm(v); return r > 0 && rho > 1e-5L * r && std::fabs(v.x) > 1e-3L * rho; }
template <class T> L to_slack(const V3& v) {     // relative displacement by putting v into the form of T
    if (kd<T>::id == 0) return 64 * EPS; L s = polar_slack(v) + 128 * EPS; if (kd<T>::id == 3) { L rho = std::sqrt(v.x * v.x + v.y * v.y); s += 128 * EPS * rho / std::max(std::fabs(v.x), rho * 1e-12L + 1e-300L); } return s;
}
template <class B, class A> B convert(const A& a, u64 how) {
    typedef kd<B> K;
    switch (how) { case 0: return B(a); case 1: { B b = a; return b; } case 2: { auto m = K::make(a); B b(m); return b; } case 3: { auto m = K::make(a); return K::make_units(m); } case 4: { B b; b = a; return b; } default: { B b(a); B k(b); return k; } }
}
struct Chain { Case& c; all at; u64 from = 0, how = 0; V3 want; L slack = 0; bool changed = false;
    explicit Chain(Case& k) : c(k) {}
    struct Gen { Chain& s; template <class T> void run() { std::get<T>(s.at) = gen<T>(s.c, s.want, s.slack); s.check<T>("as made"); } };
    template <class T> void check(const char* w) { same_vector(vec(std::get<T>(at)), want, norm(want) * slack + 1e-300L, std::string(kd<T>::name()) + " " + w); }
    template <class A> struct To { Chain& s; template <class B> void run() {
        const A& a = std::get<A>(s.at); bool units = int(kd<A>::id) == int(kd<B>::id);
        B b = convert<B>(a, s.how); std::get<B>(s.at) = b; PBT_SAY(s.c, "  -> (way " << s.how << ") " << show(b));
        if (units && kd<A>::id) { auto p = kd<A>::parts(a), q_ = p; (void)q_; auto q = kd<B>::parts(b); PBT_CHECK(close(si(std::get<0>(p)), si(std::get<0>(q)), 8 * EPS) && close(si(std::get<1>(p)), si(std::get<1>(q)), 8 * EPS) && close(si(std::get<2>(p)), si(std::get<2>(q)), 8 * EPS), "changing the units of a " << kd<B>::name() << " differential changed a component");
            L cz = kd<A>::id == 3 ? std::fabs(std::cos(si(std::get<0>(p)))) : 1; s.slack += 16 * EPS * (2 + std::fabs(si(std::get<0>(p))) + std::fabs(si(std::get<1>(p)) / cz)) * (1 + std::fabs(si(std::get<0>(p))) / cz); }
        else s.slack += to_slack<B>(s.want);
        if (!units) s.changed = true;
        s.template check<B>("after conversion");
    } };
    struct From { Chain& s; u64 to; template <class A> void run() { To<A> t{s}; pick_type(to, static_cast<all*>(nullptr), t); } };
};
PBT_PROP(chains, 1500000, 20000000) {
    Chain s(c); s.from = c.below(n_all); Chain::Gen g{s}; pick_type(s.from, static_cast<all*>(nullptr), g); bool ok = coslat_ok(s.want);
    std::size_t n = 1 + c.below(6);
    for (std::size_t i = 0; i < n; i++) { u64 to = c.below(n_all); if (to >= 8 && s.from < 8 && !ok) to -= 8; s.how = c.below(6); Chain::From f{s, to}; pick_type(s.from, static_cast<all*>(nullptr), f); s.from = to; }
    c.nontrivial(s.changed && norm(s.want) > 0); c.label(s.changed ? "kind changed" : "units only"); c.label(norm(s.want) == 0, "zero vector");
}
template <class A, class B> void add(Case& c) {
    V3 va, vb; L sa, sb; A a = gen<A>(c, va, sa); B b = gen<B>(c, vb, sb); V3 w = va + vb; const A a0 = a; const B b0 = b;
    c.nontrivial(norm(va) > 0 && norm(vb) > 0 && !std::is_same<A, B>::value);
    L t = (norm(va) + norm(vb)) * (sa + sb + 64 * EPS);
    if (kd<A>::id == 3 && (!coslat_ok(w) || t * 1e6L > norm(w))) { c.label("sum not representable"); return; }
    A s = a + b; PBT_SAY(c, "sum " << show(s));
    same_vector(vec(s), w, t * (kd<A>::id == 3 ? 4000 : 1) + norm(w) * to_slack<A>(w) + 1e-300L, std::string("sum of ") + kd<A>::name() + " and " + kd<B>::name());
    PBT_CHECK(kd<A>::parts(a) == kd<A>::parts(a0) && kd<B>::parts(b) == kd<B>::parts(b0), "a sum changed its operand");
}
template <class A> struct Second { Case& c; template <class B> void run() { add<A, B>(c); } };
struct First { Case& c; u64 b; template <class A> void run() { Second<A> s{c}; pick_type(b, static_cast<all*>(nullptr), s); } };
PBT_PROP(sums, 1000000, 15000000) { u64 a = c.below(n_all), b = c.below(n_all); First f{c, b}; pick_type(a, static_cast<all*>(nullptr), f); }
template <class... A> V3 length_vec(const bac::cartesian_differential<A...>& t) { return V3{static_cast<L>(m_q(t.get_dx()).value()), static_cast<L>(m_q(t.get_dy()).value()), static_cast<L>(m_q(t.get_dz()).value())}; }
template <class... A> V3 length_vec(const bac::spherical_differential<A...>& t) { return polar(si(t.get_dlat()), si(t.get_dlon()), m_q(t.get_ddist()).value()); }
template <class... A> V3 length_vec(const bac::spherical_equatorial_differential<A...>& t) { return equatorial(si(t.get_dlat()), si(t.get_dlon()), m_q(t.get_ddist()).value()); }
template <class... A> V3 length_vec(const bac::spherical_coslat_differential<A...>& t) { return polar(si(t.get_dlat()), si(t.get_dlon_coslat()) / std::cos(si(t.get_dlat())), m_q(t.get_ddist()).value()); }
template <class U> struct Times { Case& c; L seconds; const char* unit; template <class T> void run() {
    V3 v; L s; T t = gen<T>(c, v, s); double k = c.chance(1, 8) ? 0 : c.scaled(-9, 9); PBT_SAY(c, "times " << k << " " << unit); const T t0 = t; c.nontrivial(norm(v) > 0 && k != 0);
    bu::quantity<U> dt(bu::quantity<U>::from_value(k)); L f = k * seconds; auto p = t * dt;
    same_vector(length_vec(p), v * f, norm(v) * std::fabs(f) * (s + polar_slack(v) + 256 * EPS) + 1e-300L, std::string("product of a ") + kd<T>::name() + " differential and a time"); PBT_CHECK(kd<T>::parts(t) == kd<T>::parts(t0), "a product changed its operand"); c.label(kd<T>::name()); c.label(unit); } };
template <class U> void times(Case& c, L seconds, const char* unit) { Times<U> f{c, seconds, unit}; pick_type(c.below(n_all), static_cast<all*>(nullptr), f); }
PBT_PROP(products, 1200000, 12000000) { switch (c.below(5)) { case 0: times<bu::si::time>(c, 1, "seconds"); break; case 1: times<bu::metric::minute_base_unit::unit_type>(c, 60, "minutes"); break; case 2: times<bu::metric::hour_base_unit::unit_type>(c, 3600, "hours"); break;
    case 3: times<bu::metric::day_base_unit::unit_type>(c, 86400, "days"); break; default: times<bu::cgs::time>(c, 1, "seconds (cgs)"); } }
struct Access { Case& c; template <class T> void run() {
    typedef kd<T> K; V3 v, w; L s1, s2; T t = gen<T>(c, v, s1), u = gen<T>(c, w, s2); const T before = t; auto p = K::parts(t), q = K::parts(u); c.label(K::name()); c.nontrivial(norm(v) > 0);
    PBT_CHECK(K::tuple(t) == p, "the tuple of components differs from the components");
    T m = K::make3(std::get<0>(p), std::get<1>(p), std::get<2>(p)); auto pm = K::parts(m);
    PBT_CHECK(close(si(std::get<0>(pm)), si(std::get<0>(p)), 4 * EPS) && close(si(std::get<1>(pm)), si(std::get<1>(p)), 4 * EPS) && std::get<2>(pm) == std::get<2>(p), "made from components: other components");
    T same(t); PBT_CHECK(same == t, "a copy is not equal");
    if (K::id == 0) { bool eq = p == q; PBT_CHECK((t == u) == eq, "equality of cartesian differentials of " << (eq ? "equal" : "different") << " components is " << (t == u)); }
    else if (K::id != 3 && norm(v - w) > 1e-6L * (norm(v) + norm(w))) PBT_CHECK(!(t == u), "different differentials are equal");
    int i = static_cast<int>(c.below(4)); K::set(t, i, std::get<0>(q), std::get<1>(q), std::get<2>(q)); auto r = K::parts(t); L tol = K::id ? 4 * EPS : 0;
    PBT_CHECK(i == 0 || i == 3 ? close(si(std::get<0>(r)), si(std::get<0>(q)), tol) : std::get<0>(r) == std::get<0>(p), "setter " << i << ": first component is " << std::get<0>(r));
    PBT_CHECK(i == 1 || i == 3 ? close(si(std::get<1>(r)), si(std::get<1>(q)), tol) : std::get<1>(r) == std::get<1>(p), "setter " << i << ": second component is " << std::get<1>(r));
    PBT_CHECK(i == 2 || i == 3 ? std::get<2>(r) == std::get<2>(q) : std::get<2>(r) == std::get<2>(p), "setter " << i << ": third component is " << std::get<2>(r));
    PBT_CHECK(K::parts(before) == p, "a setter changed a copy");
    if (K::id == 0) PBT_CHECK((t == before) == (r == p), "differentials that differ in component " << i << " only: equality is " << (t == before));
    else if (K::id != 3 && norm(vec(t) - vec(before)) > 1e-6L * (norm(vec(t)) + norm(vec(before)))) PBT_CHECK(!(t == before), "differentials that differ in component " << i << " only are equal"); } };
PBT_PROP(accessors, 800000, 8000000) { Access f{c}; pick_type(c.below(n_all), static_cast<all*>(nullptr), f); }
// raw points, magnitude and direction: one length unit, no cos(lat) factor (a raw point has none)
template <class B, class A> void through(const A& a, const V3& v, L s) {
    L tol = norm(v) * (s + polar_slack(v) + 256 * EPS) + 1e-300L; std::string n = std::string(" of a ") + kd<A>::name() + " differential as " + kd<B>::name();
    B p(a.get_differential()); same_vector(vec(p), v, tol, "point" + n); B q = kd<B>::make_point(a.get_differential()); same_vector(vec(q), v, tol, "factory from the point" + n); B d = a.template to_differential<B>(); same_vector(vec(d), v, tol, "to_differential" + n);
    if (norm(v) > 0) { B u = a.template unit_vector<B>(); V3 e = v * (1 / norm(v)); same_vector(vec(u), e, s + polar_slack(v) + 256 * EPS, "unit vector" + n); }
}
struct Raw { Case& c; template <class A> void run() { V3 v; L s; A a = gen<A>(c, v, s); c.nontrivial(norm(v) > 0); c.label(kd<A>::name());
    PBT_CHECK(close(a.magnitude(), norm(v), s + 64 * EPS, 1e-300L), "magnitude of a " << kd<A>::name() << " differential is " << a.magnitude() << ", expected " << norm(v));
    through<C1>(a, v, s); through<S1>(a, v, s); through<E1>(a, v, s); } };
PBT_PROP(raw_points, 500000, 6000000) { Raw r{c}; pick_type(c.below(3), static_cast<std::tuple<C1, S1, E1>*>(nullptr), r); }
struct Mag { Case& c; template <class A> void run() { V3 v; L s; A a = gen<A>(c, v, s); c.nontrivial(norm(v) > 0); L u = unit_of<typename A::quantity3>(); PBT_CHECK(close(a.magnitude() * u, norm(v), s + 64 * EPS, 1e-300L), "magnitude of a " << kd<A>::name() << " differential is " << a.magnitude() << " of its unit, expected " << norm(v) / u); } };
PBT_PROP(magnitudes, 300000, 3000000) { Mag m{c}; pick_type(c.below(9), static_cast<std::tuple<S1, S2, S3, E1, E2, E3, L1, L2, L3>*>(nullptr), m); }
// single precision
typedef bu::quantity<bu::si::velocity, float> msf_q; typedef bu::quantity<bu::cgs::velocity, float> cmsf_q; typedef bu::quantity<bu::si::plane_angle, float> radf_q; typedef bu::quantity<bu::degree::plane_angle, float> degf_q;
namespace coord { inline L si(const msf_q& q) { return q.value(); } inline L si(const cmsf_q& q) { return static_cast<L>(q.value()) / 100; } inline L si(const radf_q& q) { return q.value(); } inline L si(const degf_q& q) { return static_cast<L>(q.value()) * DEG_L; } }
typedef bac::cartesian_differential<float, msf_q, msf_q, msf_q> CF1; typedef bac::cartesian_differential<float, cmsf_q, msf_q, cmsf_q> CF2; typedef bac::spherical_differential<float, radf_q, radf_q, msf_q> SF1; typedef bac::spherical_differential<float, degf_q, radf_q, cmsf_q> SF2; typedef bac::spherical_equatorial_differential<float, radf_q, degf_q, msf_q> EF1;
PBT_PROP(single_precision, 300000, 4000000) {
    const L E = 1.1920929e-7L; V3 w = vector_si(c, -5, 5), x = vector_si(c, -5, 5); CF1 a(msf_q::from_value(float(w.x)), msf_q::from_value(float(w.y)), msf_q::from_value(float(w.z))); CF2 b(cmsf_q::from_value(float(x.x * 100)), msf_q::from_value(float(x.y)), cmsf_q::from_value(float(x.z * 100)));
    V3 v = vec(a), u = vec(b); L n = norm(v), s = n > 0 ? std::sqrt(v.x * v.x + v.y * v.y) / n : 1, t = n * (std::min(2e-3L, 16 * E / std::max(s, 1e-9L)) + 128 * E) + 1e-30L; PBT_SAY(c, show(a) << " and " << show(b)); c.nontrivial(n > 0 && norm(u) > 0);
    SF1 p(a); same_vector(vec(p), v, t, "float cartesian to spherical"); SF2 q(p); same_vector(vec(q), v, 2 * t, "float spherical in other units"); EF1 e(q); same_vector(vec(e), v, 3 * t, "float spherical to equatorial"); CF2 k(e); same_vector(vec(k), v, 4 * t, "float equatorial to cartesian");
    C1 d(a); same_vector(vec(d), v, t, "float to double cartesian"); S1 f(a); same_vector(vec(f), v, t, "float to double spherical");
    same_vector(vec(a + b), v + u, (n + norm(u)) * 64 * E + 1e-30L, "sum of float differentials"); same_vector(vec(b + a), v + u, (n + norm(u)) * 64 * E + 1e-30L, "sum of float differentials in mixed units");
    same_vector(vec(kd<CF2>::make3(b.get_dx(), b.get_dy(), b.get_dz())), u, 0, "float differential made from its components"); CF1 same(a); PBT_CHECK(same == a, "a copy of a float differential is not equal");
    PBT_CHECK(close(a.magnitude(), n, 64 * E, 1e-30L), "magnitude of a float differential is " << a.magnitude() << ", expected " << n);
}
