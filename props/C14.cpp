// C14: changing representation or units never moves the point.
#include "reps.hpp"
using namespace coord;
namespace pbt {
const char* const property_id = "C14";
const char* const property_rule = "points with components over 40 decades (axes, poles, origin, quadrant boundaries, angles beyond one turn) in 9 representation types of uniform and mixed units; chains of 1..8 conversions by constructor, factory, explicit-unit factory, assignment and copy between all 81 pairs of types, compared after every step with the long double vector of the generated components; non-trivial: a chain that changes the kind of representation of a point other than the origin";
}
// converts A to B in one of the supported ways
template <class B, class A> B convert(const A& a, u64 how) {
    typedef kind<B> K;
    switch (how) {
    case 0: return B(a);
    case 1: { B b = a; return b; }
    case 2: { auto m = K::make(a); B b(m); return b; }
    case 3: { auto m = K::make(a); return K::make_units(m); }
    case 4: { B b; b = a; return b; }
    default: { B b(a); B k(b); return k; }
    }
}
struct Chain {
    Case& c; std::tuple<C1, C2, C3, S1, S2, S3, E1, E2, E3> at; u64 from = 0, how = 0; V3 want; L slack = 0; bool changed = false;
    explicit Chain(Case& k) : c(k) {}
    struct Gen { Chain& s; template <class T> void run() { std::get<T>(s.at) = gen_rep<T>(s.c, -15, 15, s.want, s.slack, true); s.check<T>("as made"); } };
    template <class T> void check(const char* w) { const T& t = std::get<T>(at); same_vector(vec(t), want, norm(want) * slack + 1e-300L, std::string(kind<T>::name()) + " " + w); }
    template <class A> struct To { Chain& s; template <class B> void run() {
        const A& a = std::get<A>(s.at); B b = convert<B>(a, s.how); std::get<B>(s.at) = b;
        if (int(kind<A>::id) != int(kind<B>::id)) s.changed = true;
        L add = 8 * EPS; if (kind<B>::id && int(kind<A>::id) != int(kind<B>::id)) add += polar_slack(s.want); if (kind<B>::id) { add += 8 * EPS * 8; if (int(kind<A>::id) == int(kind<B>::id)) add += 8 * EPS * (std::fabs(si(std::get<0>(kind<B>::parts(b)))) + std::fabs(si(std::get<1>(kind<B>::parts(b))))); } else add += 64 * EPS;
        s.slack += add;
        PBT_SAY(s.c, "  -> " << kind<B>::name() << " (way " << s.how << ") " << std::get<0>(kind<B>::parts(b)) << ", " << std::get<1>(kind<B>::parts(b)) << ", " << std::get<2>(kind<B>::parts(b)));
        s.template check<B>("after conversion");
        if (kind<B>::id && int(kind<A>::id) == int(kind<B>::id)) {      // a change of units only: every component is kept
            auto p = kind<A>::parts(a); auto q = kind<B>::parts(b);
            PBT_CHECK(close(si(std::get<0>(p)), si(std::get<0>(q)), 8 * EPS) && close(si(std::get<1>(p)), si(std::get<1>(q)), 8 * EPS) && close(si(std::get<2>(p)), si(std::get<2>(q)), 8 * EPS), "changing the units of a " << kind<B>::name() << " point changed a component");
        }
    } };
    struct From { Chain& s; u64 to; template <class A> void run() { To<A> t{s}; pick_type(to, static_cast<all_reps*>(nullptr), t); } };
};
PBT_PROP(chains, 3000000, 40000000) {
    Chain s(c); s.from = c.below(n_reps); Chain::Gen g{s}; pick_type(s.from, static_cast<all_reps*>(nullptr), g);
    std::size_t n = 1 + c.below(8);
    for (std::size_t i = 0; i < n; i++) { u64 to = c.below(n_reps); s.how = c.below(6); Chain::From f{s, to}; pick_type(s.from, static_cast<all_reps*>(nullptr), f); s.from = to; }
    c.nontrivial(s.changed && norm(s.want) > 0); c.label(s.changed ? "kind changed" : "units only"); c.label(norm(s.want) == 0, "origin");
}
// accessors, setters, equality, printing
struct Access { Case& c;
    template <class T> void run() {
        typedef kind<T> K; V3 v, w; L s1, s2; T t = gen_rep<T>(c, -15, 15, v, s1, true), u = gen_rep<T>(c, -15, 15, w, s2, true); T before = t;
        PBT_CHECK(K::tuple(t) == K::parts(t), "the tuple of components differs from the components");
        auto p = K::parts(t), q = K::parts(u);
        T m = K::make3(std::get<0>(p), std::get<1>(p), std::get<2>(p)); auto pm = K::parts(m);
        PBT_CHECK(close(si(std::get<0>(pm)), si(std::get<0>(p)), 4 * EPS) && close(si(std::get<1>(pm)), si(std::get<1>(p)), 4 * EPS) && std::get<2>(pm) == std::get<2>(p), "made from components: other components");
        T same(t); PBT_CHECK(same == t && t == same, "a copy is not equal");
        if (K::id == 0) { bool eq = p == q; PBT_CHECK((t == u) == eq, "equality of cartesian points of " << (eq ? "equal" : "different") << " components is " << (t == u)); }
        else { L d = norm(vec(t) - vec(u)); if (d > 1e-6L * (norm(v) + norm(w))) PBT_CHECK(!(t == u), "different points are equal"); }
        int i = static_cast<int>(c.below(4)); K::set(t, i, std::get<0>(q), std::get<1>(q), std::get<2>(q)); auto r = K::parts(t);
        L tol = K::id ? 4 * EPS : 0;
        PBT_CHECK(i == 0 || i == 3 ? close(si(std::get<0>(r)), si(std::get<0>(q)), tol) : std::get<0>(r) == std::get<0>(p), "setter " << i << ": first component is " << std::get<0>(r));
        PBT_CHECK(i == 1 || i == 3 ? close(si(std::get<1>(r)), si(std::get<1>(q)), tol) : std::get<1>(r) == std::get<1>(p), "setter " << i << ": second component is " << std::get<1>(r));
        PBT_CHECK(i == 2 || i == 3 ? std::get<2>(r) == std::get<2>(q) : std::get<2>(r) == std::get<2>(p), "setter " << i << ": third component is " << std::get<2>(r));
        PBT_CHECK(K::parts(before) == p, "a setter changed a copy");
        if (K::id == 0) PBT_CHECK((t == before) == (r == p) && (before == t) == (r == p), "points that differ in component " << i << " only: equality is " << (t == before));    // one component changed
        else if (norm(vec(t) - vec(before)) > 1e-6L * (norm(vec(t)) + norm(vec(before)))) PBT_CHECK(!(t == before) && !(before == t), "points that differ in component " << i << " only are equal");
        std::ostringstream o, e; o << before; e << K::title() << std::get<0>(p) << " , " << std::get<1>(p) << " , " << std::get<2>(p) << " )";
        PBT_EQ(o.str(), e.str(), "printed text"); c.label(K::name()); c.nontrivial(norm(v) > 0);
    } };
PBT_PROP(accessors, 1500000, 20000000) { Access a{c}; pick_type(c.below(n_reps), static_cast<all_reps*>(nullptr), a); }
// Boost.Geometry points in and out; to_representation between types that share the length unit
template <class B, class A> void through_point(Case& c, const A& a, const V3& want, L slack, const char* what) {
    L tol = norm(want) * (slack + polar_slack(want) + 200 * EPS) + 1e-300L;
    B b = kind<B>::make_as(a.get_point()); same_vector(vec(b), want, tol, std::string("factory from the point of a ") + what);
    B d(a.get_point()); same_vector(vec(d), want, tol, std::string("constructor from the point of a ") + what);
    B e = a.template to_representation<B>(); same_vector(vec(e), want, tol, std::string("to_representation of a ") + what);
}
struct Points { Case& c; template <class A> void run() {
    V3 v; L s; A a = gen_rep<A>(c, -15, 15, v, s, true); s += 8 * EPS * (std::fabs(si(std::get<0>(kind<A>::parts(a)))) * 0);
    through_point<C1>(c, a, v, s, kind<A>::name()); through_point<S1>(c, a, v, s, kind<A>::name()); through_point<E1>(c, a, v, s, kind<A>::name()); c.nontrivial(norm(v) > 0); c.label(kind<A>::name()); } };
PBT_PROP(geometry_points, 800000, 8000000) { Points p{c}; pick_type(c.below(3), static_cast<std::tuple<C1, S1, E1>*>(nullptr), p); }
PBT_PROP(degree_points, 800000, 8000000) {    // points of Boost.Geometry measured in degrees
    namespace bg = boost::geometry; double a = angle_deg(c, -180, 180), b = angle_deg(c, 0, 180), r = c.scaled(-10, 10, false); PBT_SAY(c, a << " " << b << " " << r); c.nontrivial();
    bg::model::point<double, 3, bg::cs::spherical<bg::degree>> p(a, b, r); V3 want = polar(a * PI_L / 180, b * PI_L / 180, r); L tol = r * (polar_slack(want) + 200 * EPS);
    same_vector(vec(kind<C1>::make_as(p)), want, tol, "cartesian from a point in degrees"); same_vector(vec(kind<S1>::make_as(p)), want, tol, "spherical from a point in degrees"); same_vector(vec(kind<S2>::make_as(p)), want * 0.01L, tol * 0.01L, "spherical (degrees, cm) from a point in degrees"); same_vector(vec(kind<E1>::make_as(p)), want, tol, "equatorial from a point in degrees");
    bg::model::point<double, 3, bg::cs::spherical_equatorial<bg::degree>> q(a, b - 90, r); V3 w2 = equatorial(a * PI_L / 180, (b - 90) * PI_L / 180, r);
    same_vector(vec(kind<C1>::make_as(q)), w2, tol, "cartesian from an equatorial point in degrees"); same_vector(vec(kind<E2>::make_as(q)), w2 * 0.01L, tol * 0.01L, "equatorial (degrees, cm) from an equatorial point in degrees");
}
// single precision: chains among float types, and from float to double types
struct FloatChain { Case& c; V3 want; L tol = 0;
    struct Start { FloatChain& s; template <class A> void run() {
        A a = gen_float_rep<A>(s.c, -6, 6, s.want); auto p = kind<A>::parts(a); same_vector(vec(a), s.want, norm(s.want) * 64 * EPSF + 1e-30L, std::string("float ") + kind<A>::name() + " as made"); s.c.label(kind<A>::name()); s.c.nontrivial(norm(s.want) > 0); (void)p;
        L t = norm(s.want) * (polar_slackf(s.want) + 64 * EPSF) + 1e-30L; same_vector(vec(C1(a)), s.want, t, "float to double cartesian"); same_vector(vec(S2(a)), s.want, t, "float to double spherical"); same_vector(vec(E3(a)), s.want, t, "float to double equatorial");
        s.walk(a); } };
    template <class A> void walk(const A& a) { hop<A, CF1, SF1, EF1>(a); hop<A, CF2, EF2, SF2>(a); }
    template <class A, class X, class Y, class Z> void hop(const A& a) { L w = polar_slackf(want) + 128 * EPSF, n = norm(want); X x(a); same_vector(vec(x), want, n * w + 1e-30L, "float, one step"); Y y(x); same_vector(vec(y), want, n * 2 * w + 1e-30L, "float, two steps"); Z z = kind<Z>::make(y); same_vector(vec(z), want, n * 3 * w + 1e-30L, "float, three steps"); A b(z); same_vector(vec(b), want, n * 4 * w + 1e-30L, "float, and back"); X m = kind<X>::make_units(kind<X>::make(z)); same_vector(vec(m), want, n * 4 * w + 1e-30L, "float, by factory"); }
};
PBT_PROP(single_precision, 600000, 6000000) { FloatChain f{c, V3()}; FloatChain::Start s{f}; pick_type(c.below(n_float_reps), static_cast<float_reps*>(nullptr), s); }
PBT_KNOWN(equality_units, "operator== compares bare numbers: (1 m, 2 m, 3 m) equals (1 parsec, 2 parsec, 3 parsec)") {
    C1 a(m_q::from_value(1), m_q::from_value(2), m_q::from_value(3)); C3 b(pc_q::from_value(1), pc_q::from_value(2), pc_q::from_value(3)); PBT_CHECK(!(a == b), "points 17 decades apart are equal");
}
