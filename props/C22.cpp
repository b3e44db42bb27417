// C22: length units.
#include "coord.hpp"
using namespace coord;
namespace pbt {
const char* const property_id = "C22";
const char* const property_rule = "lengths over 40 decades of either sign in the 9 declared units, made with the singular or plural constant; conversion along chains of 2..6 units and back, comparison, sums and ratios across units against long double factors to the metre; non-trivial: a non-zero length and a change of unit";
}
namespace {
// metres, from the definitions: au (JPL, 2000s), light travel time in the Julian year, parsec to eleven digits
struct u_au { typedef bau::length_astronomical_unit unit; static L get() { return 149597870691.0L; } static const char* name() { return "au"; } template <class V> static auto one(V v) { return v * bau::astronomical_unit; } template <class V> static auto many(V v) { return v * bau::astronomical_units; } };
struct u_ls { typedef bau::length_light_second unit; static L get() { return 299792458.0L; } static const char* name() { return "light second"; } template <class V> static auto one(V v) { return v * bau::light_second; } template <class V> static auto many(V v) { return v * bau::light_seconds; } };
struct u_lmin { typedef bau::length_light_minute unit; static L get() { return 60 * 299792458.0L; } static const char* name() { return "light minute"; } template <class V> static auto one(V v) { return v * bau::light_minute; } template <class V> static auto many(V v) { return v * bau::light_minutes; } };
struct u_lh { typedef bau::length_light_hour unit; static L get() { return 3600 * 299792458.0L; } static const char* name() { return "light hour"; } template <class V> static auto one(V v) { return v * bau::light_hour; } template <class V> static auto many(V v) { return v * bau::light_hours; } };
struct u_ld { typedef bau::length_light_day unit; static L get() { return 86400 * 299792458.0L; } static const char* name() { return "light day"; } template <class V> static auto one(V v) { return v * bau::light_day; } template <class V> static auto many(V v) { return v * bau::light_days; } };
struct u_ly { typedef bau::length_light_year unit; static L get() { return 365.25L * 86400 * 299792458.0L; } static const char* name() { return "light year"; } template <class V> static auto one(V v) { return v * bau::light_year; } template <class V> static auto many(V v) { return v * bau::light_years; } };
struct u_pc { typedef bau::length_parsec unit; static L get() { return 3.0856775813e16L; } static const char* name() { return "parsec"; } template <class V> static auto one(V v) { return v * bau::parsec; } template <class V> static auto many(V v) { return v * bau::parsecs; } };
struct u_me { typedef bau::length_meter unit; static L get() { return 1; } static const char* name() { return "metre"; } template <class V> static auto one(V v) { return v * bau::metre; } template <class V> static auto many(V v) { return v * bau::meters; } };
struct u_ce { typedef bau::length_centimeter unit; static L get() { return 0.01L; } static const char* name() { return "centimetre"; } template <class V> static auto one(V v) { return v * bau::centimetre; } template <class V> static auto many(V v) { return v * bau::centimeters; } };
typedef std::tuple<u_au, u_ls, u_lmin, u_lh, u_ld, u_ly, u_pc, u_me, u_ce> units_t; const u64 N = 9;   // tags, so that the harness compiles even if two units are the same type
template <class U> using Q = bu::quantity<typename U::unit, double>;
template <class U> struct Slot { Q<U> q; };
typedef std::tuple<Slot<u_au>, Slot<u_ls>, Slot<u_lmin>, Slot<u_lh>, Slot<u_ld>, Slot<u_ly>, Slot<u_pc>, Slot<u_me>, Slot<u_ce>> state_t;
template <class U> L in_m(const Q<U>& q) { return static_cast<L>(q.value()) * U::get(); }
const L TOL = 1e-13L;
struct S { Case& c; state_t at; L want = 0; u64 now = 0; explicit S(Case& k) : c(k) {} };
struct Make { S& s; double v; template <class U> void run() { Q<U> q = s.c.flag() ? Q<U>(U::one(v)) : Q<U>(U::many(v)); PBT_CHECK(q.value() == v, "a length of " << v << " " << U::name() << " has value " << q.value()); std::get<Slot<U>>(s.at).q = q; s.want = static_cast<L>(v) * U::get(); PBT_SAY(s.c, v << " " << U::name()); } };
template <class U> struct To { S& s; template <class W> void run() { const Q<U>& q = std::get<Slot<U>>(s.at).q; Q<W> r(q); PBT_SAY(s.c, " -> " << r.value() << " " << W::name()); PBT_CHECK(close(in_m<W>(r), s.want, TOL), U::name() << " to " << W::name() << ": " << in_m<W>(r) << " m, expected " << s.want << " m");
    Q<W> k = static_cast<Q<W>>(q); PBT_CHECK(k == r, "two ways of converting differ"); Q<U> b(r); PBT_CHECK(close(b.value(), q.value(), TOL), U::name() << " to " << W::name() << " and back: " << b.value() << ", was " << q.value());
    L f = bu::conversion_factor(typename U::unit(), typename W::unit()); PBT_CHECK(close(f, U::get() / W::get(), TOL), "factor from " << U::name() << " to " << W::name() << " is " << f);
    // order and sums across units
    double g = s.c.chance(1, 3) ? 1 : 1 + s.c.scaled(-10, 0); Q<W> o(r * g); Q<U> ob(o); if (std::fabs(g - 1) > 1e-11) PBT_CHECK((ob > q) == (o > r) && (ob < q) == (o < r), "order of two lengths depends on the unit"); Q<W> sum = r + Q<W>(q); PBT_CHECK(close(in_m<W>(sum), 2 * s.want, TOL), "sum of equal lengths in two units");
    if (q.value() != 0) { L ratio = static_cast<double>(Q<W>(q) / r); PBT_CHECK(close(ratio, 1, TOL), "ratio of equal lengths in two units is " << ratio); }
    std::get<Slot<W>>(s.at).q = r; } };
struct From { S& s; u64 to; template <class U> void run() { To<U> t{s}; pick_type(to, static_cast<units_t*>(nullptr), t); } };
}
PBT_PROP(conversions, 2000000, 30000000) {
    S s(c); double v = c.chance(1, 16) ? 0 : c.chance(1, 4) ? static_cast<double>(c.range(-9, 9)) : c.scaled(-20, 20); s.now = c.below(N); Make m{s, v}; pick_type(s.now, static_cast<units_t*>(nullptr), m); bool moved = false;
    for (std::size_t i = 0, n = 1 + c.below(6); i < n; i++) { u64 to = c.below(N); moved = moved || to != s.now; From f{s, to}; pick_type(s.now, static_cast<units_t*>(nullptr), f); s.now = to; }
    c.nontrivial(moved && v != 0);
}
PBT_PROP(names, 1, 1) {     // every spelling of the same unit
    c.nontrivial(); PBT_CHECK((std::is_same<bau::length_meter, bau::length_metre>::value) && (std::is_same<bau::length_centimeter, bau::length_centimetre>::value), "spellings of one unit differ");
    bu::quantity<bu::si::length> a(1.0 * bau::meter), b(1.0 * bau::metre), d(1.0 * bau::meters), e(1.0 * bau::metres); PBT_CHECK(a == b && b == d && d == e, "metre"); bu::quantity<bu::cgs::length> f(1.0 * bau::centimeter), g(1.0 * bau::centimetre), h(1.0 * bau::centimeters), k(1.0 * bau::centimetres); PBT_CHECK(f == g && g == h && h == k, "centimetre");
}
