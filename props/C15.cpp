// C15: vector arithmetic on representations.
#include "reps.hpp"
using namespace coord;
namespace pbt {
const char* const property_id = "C15";
const char* const property_rule = "pairs of points (independent, parallel, opposite, orthogonal, nearly equal, with the origin, components over 30 decades) in all 81 pairs of 9 representation types with uniform and mixed units; dot, cross, magnitude, unit_vector, sum, mean and operator+ against long double vector algebra in SI; non-trivial: both points differ from the origin and their types differ";
}
typedef bu::quantity<bu::si::area> area_q;
template <class Q> L area_si(const Q& q) { return area_q(q).value(); }
template <class Q> L length_si(const Q& q) { return m_q(q).value(); }
// SI vector of a result whose components have arbitrary units of area
template <class... A> V3 area_vec(const bac::cartesian_representation<A...>& t) { return V3{area_si(t.get_x()), area_si(t.get_y()), area_si(t.get_z())}; }
template <class... A> V3 area_vec(const bac::spherical_representation<A...>& t) { return polar(si(t.get_lat()), si(t.get_lon()), area_si(t.get_dist())); }
template <class... A> V3 area_vec(const bac::spherical_equatorial_representation<A...>& t) { return equatorial(si(t.get_lat()), si(t.get_lon()), area_si(t.get_dist())); }
template <class T> T at_vector(const V3& v) {     // a point of type T near the vector v
    C1 t(from_si<m_q>(v.x), from_si<m_q>(v.y), from_si<m_q>(v.z)); return T(t);
}
static std::string opt(const char* s, const char* a, const char* b) { return std::string(s) + " of " + a + " and " + b; }
template <class A, class B> struct Pair {
    static void run(Case& c) {
        typedef kind<A> KA; typedef kind<B> KB; const char *na = KA::name(), *nb = KB::name();
        V3 va, vb; L sa, sb; A a = gen_rep<A>(c, -12, 12, va, sa, true); B b;
        u64 rel = c.below(6);
        if (rel == 0 || norm(va) == 0) b = gen_rep<B>(c, -12, 12, vb, sb, true);
        else {
            V3 w = va; L k = static_cast<L>(c.scaled(-6, 6, false));
            switch (rel) { case 1: w = va * k; break; case 2: w = va * -k; break; case 3: w = cross3(va, V3{static_cast<L>(c.unit()), static_cast<L>(c.unit()), 1}) * (k / norm(va)); break; case 4: w = va + V3{1, -1, 1} * (norm(va) * static_cast<L>(c.scaled(-12, -3))); break; default: w = va; }
            b = at_vector<B>(w); vb = vec(b); sb = KB::id ? 8 * EPS * 10 : 8 * EPS; PBT_SAY(c, nb << " (relation " << rel << ") " << std::get<0>(KB::parts(b)) << ", " << std::get<1>(KB::parts(b)) << ", " << std::get<2>(KB::parts(b)) << " = " << vb);
        }
        const A a0 = a; const B b0 = b; L na_ = norm(va), nb_ = norm(vb), s = sa + sb + 64 * EPS, prod = na_ * nb_ * s + 1e-300L;
        c.label("relation " + std::to_string(rel)); c.nontrivial(na_ > 0 && nb_ > 0 && !std::is_same<A, B>::value);
        // dot
        L d = area_si(bac::dot(a, b)), dr = area_si(bac::dot(b, a)), wd = dot3(va, vb);
        PBT_CHECK(std::isfinite(d) && std::fabs(d - wd) <= prod, opt("dot", na, nb) << " is " << d << ", expected " << wd << " m2");
        PBT_CHECK(std::fabs(dr - wd) <= prod, opt("dot", nb, na) << " is " << dr << ", expected " << wd << " m2");
        // cross
        V3 wx = cross3(va, vb), x = area_vec(bac::cross(a, b)), y = area_vec(bac::cross(b, a));
        same_vector(x, wx, prod + (KA::id ? norm(wx) * (polar_slack(wx) + 64 * EPS) + 8e-8L * prod : 0), opt("cross", na, nb));
        same_vector(y, wx * -1, prod + (KB::id ? norm(wx) * (polar_slack(wx) + 64 * EPS) + 8e-8L * prod : 0), opt("cross", nb, na));
        PBT_CHECK(std::fabs(dot3(x, va)) <= na_ * (prod + norm(x) * 8e-8L * (KA::id ? 1 : 0)) * 4 + 1e-300L, opt("cross", na, nb) << " is not orthogonal to the first operand");
        // magnitude
        PBT_CHECK(close(length_si(bac::magnitude(a)), na_, sa + 32 * EPS, 1e-300L), "magnitude of a " << na << " is " << length_si(bac::magnitude(a)) << ", expected " << na_);
        // unit vector: the numbers are the direction cosines, in the units of the operand
        if (na_ > 0) {
            A u = bac::unit_vector(a); V3 n = va * (1 / na_), g;
            auto p = KA::parts(u);
            if (KA::id == 0) g = V3{static_cast<L>(std::get<0>(p).value()), static_cast<L>(std::get<1>(p).value()), static_cast<L>(std::get<2>(p).value())};
            else { PBT_CHECK(std::get<2>(p).value() == 1, "the unit vector of a " << na << " has distance " << std::get<2>(p)); g = vec(u) * (1 / per_unit<typename A::quantity3>::get()); }
            same_vector(g, n, sa + 64 * EPS, std::string("unit vector of a ") + na); PBT_CHECK(close(norm(g), 1, 64 * EPS), "the unit vector of a " << na << " has length " << norm(g));
        }
        // sum, mean, operator+
        V3 ws = va + vb; L ts = (na_ + nb_) * s + (KA::id ? norm(ws) * (polar_slack(ws) + 64 * EPS) + 8e-8L * (na_ + nb_) * s : 0) + 1e-300L;
        same_vector(vec(bac::sum(a, b)), ws, ts, opt("sum", na, nb)); same_vector(vec(a + b), ws, ts, opt("operator+", na, nb));
        same_vector(vec(bac::mean(a, b)), ws * 0.5L, ts, opt("mean", na, nb));
        PBT_CHECK(KA::parts(a) == KA::parts(a0) && KB::parts(b) == KB::parts(b0), "an operation changed its operand");
    }
};
template <class A> struct Second { Case& c; template <class B> void run() { Pair<A, B>::run(c); } };
struct First { Case& c; u64 b; template <class A> void run() { Second<A> s{c}; pick_type(b, static_cast<all_reps*>(nullptr), s); } };
PBT_PROP(vector_algebra, 1500000, 25000000) { u64 a = c.below(n_reps), b = c.below(n_reps); First f{c, b}; pick_type(a, static_cast<all_reps*>(nullptr), f); }
// single precision, alone and mixed with double (unit_vector of the angular kinds exists for double only)
template <class T> void float_unit(const T&, const V3&) {}
template <class... A> void float_unit(const bac::cartesian_representation<A...>& a, const V3& v) { if (norm(v) == 0) return; auto u = bac::unit_vector(a); same_vector(V3{static_cast<L>(u.get_x().value()), static_cast<L>(u.get_y().value()), static_cast<L>(u.get_z().value())}, v * (1 / norm(v)), 256 * EPSF, "unit vector of a float cartesian"); }
template <class A> struct FloatSecond { Case& c; template <class B> void run() {
    V3 va, vb; A a = gen_float_rep<A>(c, -4, 4, va); B b = gen_float_rep<B>(c, -4, 4, vb); L na = norm(va), nb = norm(vb), s = 256 * EPSF, prod = na * nb * s + 1e-30L; c.nontrivial(na > 0 && nb > 0); const char *ka = kind<A>::name(), *kb = kind<B>::name();
    PBT_CHECK(std::fabs(area_si(bac::dot(a, b)) - dot3(va, vb)) <= prod, opt("float dot", ka, kb) << " is " << area_si(bac::dot(a, b)) << ", expected " << dot3(va, vb) << " m2");
    V3 wx = cross3(va, vb); same_vector(area_vec(bac::cross(a, b)), wx, prod + norm(wx) * polar_slackf(wx), opt("float cross", ka, kb));
    PBT_CHECK(close(length_si(bac::magnitude(a)), na, s, 1e-30L), "magnitude of a float " << ka << " is " << length_si(bac::magnitude(a)) << ", expected " << na);
    V3 ws = va + vb; L ts = (na + nb) * s + norm(ws) * polar_slackf(ws) + 1e-30L; same_vector(vec(bac::sum(a, b)), ws, ts, opt("float sum", ka, kb)); same_vector(vec(a + b), ws, ts, opt("float operator+", ka, kb)); same_vector(vec(bac::mean(a, b)), ws * 0.5L, ts, opt("float mean", ka, kb));
   float_unit(a, va);
    V3 vd; L sd; C2 d = gen_rep<C2>(c, -4, 4, vd, sd, false); L nd = norm(vd);
    PBT_CHECK(std::fabs(area_si(bac::dot(a, d)) - dot3(va, vd)) <= na * nd * s + 1e-30L && std::fabs(area_si(bac::dot(d, a)) - dot3(va, vd)) <= na * nd * s + 1e-30L, "dot of a float " << ka << " and a double cartesian is " << area_si(bac::dot(a, d)) << ", expected " << dot3(va, vd));
    same_vector(vec(bac::sum(d, a)), vd + va, (na + nd) * s + 1e-30L, "sum of double and float"); same_vector(area_vec(bac::cross(d, a)), cross3(vd, va), na * nd * s + 1e-30L, "cross of double and float");
} };
struct FloatFirst { Case& c; u64 b; template <class A> void run() { FloatSecond<A> s{c}; pick_type(b, static_cast<float_reps*>(nullptr), s); } };
PBT_PROP(single_precision, 300000, 4000000) { u64 a = c.below(n_float_reps), b = c.below(n_float_reps); FloatFirst f{c, b}; pick_type(a, static_cast<float_reps*>(nullptr), f); }
