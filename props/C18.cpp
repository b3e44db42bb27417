// C18: transformation matrices between horizon, hour angle, right ascension, ecliptic and galactic systems.
#include "coord.hpp"
#include <boost/astronomy/coordinate/utility/utility.hpp>
namespace pbt {
const char* const property_id = "C18";
const char* const property_rule = "pairs of angles (quadrant boundaries and their neighbourhood, poles, small and arbitrary values, several turns), places, sidereal times, obliquities and dates 1400-9999, in degrees and radians; every matrix against the spherical formulas in long double, orthogonality, inverse pairs, chains of up to 8 transformations and back, extraction of rounded and polar vectors; non-trivial: an angle that is not a multiple of 90 degrees";
}
namespace c18 {
namespace ac = boost::astronomy::coordinate; namespace ub = boost::numeric::ublas;
using coord::L; using coord::V3; using coord::rad_q; using coord::deg_q; using coord::PI_L; using coord::EPS; using pbt::Case; using pbt::u64;
typedef ub::matrix<double> M;
struct Ang { L rad; deg_q deg; rad_q r; bool in_deg; };
static Ang angle(Case& c, double lo, double hi) { Ang a; double d = coord::angle_deg(c, lo, hi); a.in_deg = c.flag(); a.deg = deg_q::from_value(d); a.r = rad_q::from_value(static_cast<double>(d * PI_L / 180)); a.rad = a.in_deg ? coord::si(a.deg) : coord::si(a.r); return a; }
static std::ostream& operator<<(std::ostream& o, const Ang& a) { if (a.in_deg) return o << a.deg.value() << " deg"; return o << a.r.value() << " rad"; }
static V3 vec(const M& m) { PBT_CHECK(m.size1() == 3 && m.size2() == 1, "a column vector of " << m.size1() << "x" << m.size2()); return V3{m(0, 0), m(1, 0), m(2, 0)}; }
static M column(const Ang& u, const Ang& v) { return u.in_deg && v.in_deg ? ac::column_vector<double, deg_q>(u.deg, v.deg).get() : ac::column_vector<double, rad_q>(rad_q::from_value(static_cast<double>(u.rad)), rad_q::from_value(static_cast<double>(v.rad))).get(); }
static M column3(const V3& v) { M m(3, 1); m(0, 0) = static_cast<double>(v.x); m(1, 0) = static_cast<double>(v.y); m(2, 0) = static_cast<double>(v.z); return m; }
template <template <class, class, class> class T> M of(const Ang& a) { return a.in_deg ? T<double, deg_q, double>(a.deg).get() : T<double, rad_q, double>(a.r).get(); }
static V3 mul(const M& m, const V3& v) { return V3{m(0, 0) * v.x + m(0, 1) * v.y + m(0, 2) * v.z, m(1, 0) * v.x + m(1, 1) * v.y + m(1, 2) * v.z, m(2, 0) * v.x + m(2, 1) * v.y + m(2, 2) * v.z}; }
static L slack(L a) { return 16 * EPS * (2 + std::fabs(a)); }
static void orthonormal(const M& m, L tol, const char* what) {
    PBT_CHECK(m.size1() == 3 && m.size2() == 3, what << " is not 3x3");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { L s = 0; for (int k = 0; k < 3; k++) s += static_cast<L>(m(i, k)) * m(j, k); PBT_CHECK(std::fabs(s - (i == j)) <= tol, what << ": rows " << i << " and " << j << " have product " << s); }
}
static void inverse(const M& a, const M& b, L tol, const char* what) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { L s = 0; for (int k = 0; k < 3; k++) s += static_cast<L>(a(i, k)) * b(k, j); PBT_CHECK(std::fabs(s - (i == j)) <= tol, what << ": element " << i << "," << j << " of the product is " << s); }
}
enum { HORIZON, RADEC, FROM_ECL, TO_ECL, FROM_GAL, TO_GAL, N };
static const char* const names[N] = {"hour angle <-> horizon", "hour angle <-> right ascension", "ecliptic -> right ascension", "right ascension -> ecliptic", "galactic -> right ascension", "right ascension -> galactic"};
static M matrix_of(u64 k, const Ang& a) { switch (k) { case HORIZON: return of<ac::ha_dec_horizon>(a); case RADEC: return of<ac::ha_dec_ra_dec>(a); case FROM_ECL: return of<ac::ecliptic_to_ra_dec>(a); case TO_ECL: return of<ac::ra_dec_to_ecliptic>(a); case FROM_GAL: return ac::galactic_to_ra_dec<double>().get(); default: return ac::ra_dec_to_galactic<double>().get(); } }
static u64 back(u64 k) { return k == FROM_ECL ? TO_ECL : k == TO_ECL ? FROM_ECL : k == FROM_GAL ? TO_GAL : k == TO_GAL ? FROM_GAL : k; }
static L tolerance(u64 k, L a) { return k >= FROM_GAL ? 5e-7L : slack(a) * 4; }
// direction that the formulas of spherical astronomy give for (u, v)
static V3 formula(u64 k, L u, L v, L a) {
    L z, x, y; const L P = 192.25L * PI_L / 180, Q = 27.4L * PI_L / 180, N0 = 33 * PI_L / 180;
    switch (k) {
    case HORIZON: { z = std::sin(v) * std::sin(a) + std::cos(v) * std::cos(a) * std::cos(u); y = -std::cos(v) * std::sin(u); x = std::sin(v) * std::cos(a) - std::cos(v) * std::sin(a) * std::cos(u); return V3{x, y, z}; }
    case RADEC: return coord::equatorial(a - u, v, 1);
    case FROM_ECL: z = std::sin(v) * std::cos(a) + std::cos(v) * std::sin(a) * std::sin(u); y = std::sin(u) * std::cos(v) * std::cos(a) - std::sin(v) * std::sin(a); x = std::cos(u) * std::cos(v); return V3{x, y, z};
    case TO_ECL: z = std::sin(v) * std::cos(a) - std::cos(v) * std::sin(a) * std::sin(u); y = std::sin(u) * std::cos(v) * std::cos(a) + std::sin(v) * std::sin(a); x = std::cos(u) * std::cos(v); return V3{x, y, z};
    case FROM_GAL: { z = std::cos(v) * std::cos(Q) * std::sin(u - N0) + std::sin(v) * std::sin(Q); L s = std::cos(v) * std::cos(u - N0), t = std::sin(v) * std::cos(Q) - std::cos(v) * std::sin(Q) * std::sin(u - N0); x = std::cos(P) * t - std::sin(P) * s; y = std::sin(P) * t + std::cos(P) * s; return V3{x, y, z}; }
    default: { z = std::cos(v) * std::cos(Q) * std::cos(u - P) + std::sin(v) * std::sin(Q); L t = std::sin(v) - z * std::sin(Q), s = std::cos(v) * std::sin(u - P) * std::cos(Q); L cb = std::sqrt(std::max<L>(0, 1 - z * z)), l = std::atan2(t, s) + N0; return V3{cb * std::cos(l), cb * std::sin(l), z}; }
    }
}
static void check_extract(const M& m, const V3& want, L tol, const char* what) {
    ac::extract_coordinates e(m); auto p = e.get_coordinates(); L u = p.first.value(), v = p.second.value();
    PBT_CHECK(std::isfinite(u) && std::isfinite(v) && std::fabs(u) <= PI_L + 4 * EPS && std::fabs(v) <= PI_L / 2 + 4 * EPS, what << ": extracted longitude " << u << ", latitude " << v);
    // an error of e in the third component is an error of e / cos(lat) in the latitude, at most sqrt(2 e)
    L e2 = tol + 8 * EPS, rho = std::sqrt(want.x * want.x + want.y * want.y), allowed = 2 * tol + std::min<L>(2 * std::sqrt(2 * e2), 4 * e2 / std::max<L>(1e-12L, rho));
    coord::same_vector(coord::equatorial(u, v, 1), want, allowed, std::string(what) + ": extracted direction");
}
PBT_PROP(formulas, 1500000, 20000000) {
    Ang u = angle(c, c.chance(1, 8) ? -1080 : -180, 360), v = angle(c, -90, 90), a = angle(c, -360, 360); u64 k = c.below(N); PBT_SAY(c, names[k] << " of " << u << ", " << v << " with " << a); c.label(names[k]);
    c.nontrivial(std::fmod(std::fabs(u.rad), PI_L / 2) > 1e-9L || std::fmod(std::fabs(v.rad), PI_L / 2) > 1e-9L);
    M col = column(u, v); coord::same_vector(vec(col), coord::equatorial(u.rad, v.rad, 1), slack(u.rad), "column vector");
    check_extract(col, coord::equatorial(u.rad, v.rad, 1), slack(u.rad) * 2, "column vector");
    M m = matrix_of(k, a); L tol = tolerance(k, a.rad); orthonormal(m, k >= FROM_GAL ? 1e-6L : 16 * EPS, names[k]); V3 want = formula(k, u.rad, v.rad, a.rad);
    M got = ub::prod(m, col); coord::same_vector(vec(got), want, tol + slack(u.rad), names[k]); check_extract(got, want, tol + 2 * slack(u.rad), names[k]);
    M r = matrix_of(back(k), a); inverse(m, r, k >= FROM_GAL ? 1e-6L : 16 * EPS, names[k]); inverse(r, m, k >= FROM_GAL ? 1e-6L : 16 * EPS, names[k]);
    M home = ub::prod(r, got); check_extract(home, coord::equatorial(u.rad, v.rad, 1), (k >= FROM_GAL ? 1e-6L : 16 * EPS) + 2 * slack(u.rad), "there and back");
}
// lengths and angles of arbitrary vectors; several systems in a row and all the way back
PBT_PROP(chains, 600000, 8000000) {
    V3 p = coord::vector_si(c, -6, 6), q = coord::vector_si(c, -6, 6); std::size_t n = 1 + c.below(8); std::vector<u64> ks; std::vector<Ang> as; V3 x = p, y = q; L tol = 64 * EPS * static_cast<L>(n); std::size_t coarse = 0;
    for (std::size_t i = 0; i < n; i++) { u64 k = c.below(N); Ang a = angle(c, -180, 180); ks.push_back(k); as.push_back(a); if (k >= FROM_GAL) coarse++; M m = matrix_of(k, a); M xm = ub::prod(m, column3(x)), ym = ub::prod(m, column3(y)); x = vec(xm); y = vec(ym); PBT_SAY(c, names[k] << " " << a); }
    tol += static_cast<L>(coarse) * 1e-6L; c.nontrivial(coord::norm(p) > 0 && coord::norm(q) > 0); c.label(coarse ? "with galactic" : "exact rotations");
    PBT_CHECK(coord::close(coord::norm(x), coord::norm(p), tol), "length became " << coord::norm(x) << ", was " << coord::norm(p)); PBT_CHECK(std::fabs(coord::dot3(x, y) - coord::dot3(p, q)) <= 2 * tol * coord::norm(p) * coord::norm(q) + 1e-300L, "scalar product became " << coord::dot3(x, y) << ", was " << coord::dot3(p, q));
    for (std::size_t i = n; i-- > 0;) { M m = matrix_of(back(ks[i]), as[i]); M xm = ub::prod(m, column3(x)); x = vec(xm); }
    coord::same_vector(x, p, coord::norm(p) * 2 * tol + 1e-300L, "the way back");
}
// vectors whose length exceeds one by rounding are still directions
PBT_PROP(extraction, 500000, 5000000) {
    L lon = static_cast<L>(coord::angle_deg(c, -180, 180)) * PI_L / 180, lat = static_cast<L>(coord::angle_deg(c, -90, 90)) * PI_L / 180; V3 d = coord::equatorial(lon, lat, 1); int ulps = static_cast<int>(c.range(-4, 4)); M m = column3(d);
    for (int i = 0; i < 3; i++) for (int k = 0; k < std::abs(ulps); k++) m(i, 0) = std::nextafter(m(i, 0), ulps > 0 ? m(i, 0) * 2 : 0.0);
    PBT_SAY(c, m(0, 0) << " " << m(1, 0) << " " << m(2, 0)); c.nontrivial(ulps != 0); check_extract(m, vec(m), 32 * EPS, "extraction");
}
// single precision elements and angles
typedef bu::quantity<bu::si::plane_angle, float> radf_q; typedef bu::quantity<bu::degree::plane_angle, float> degf_q; typedef ub::matrix<float> MF;
template <template <class, class, class> class T> M ofF(L a, u64 w) { MF m = w == 0 ? T<double, rad_q, float>(rad_q::from_value(static_cast<double>(a))).get() : w == 1 ? T<float, radf_q, float>(radf_q::from_value(static_cast<float>(a))).get() : T<float, degf_q, float>(degf_q::from_value(static_cast<float>(a * 180 / PI_L))).get(); return M(m); }
PBT_PROP(single_precision, 300000, 3000000) {
    Ang u = angle(c, -180, 360), v = angle(c, -90, 90), a = angle(c, -180, 180); u64 k = c.below(N), w = c.below(3); PBT_SAY(c, names[k] << " of " << u << ", " << v << " with " << a << " way " << w); c.nontrivial(); const L tol = 8e-6L;
    M m; switch (k) { case HORIZON: m = ofF<ac::ha_dec_horizon>(a.rad, w); break; case RADEC: m = ofF<ac::ha_dec_ra_dec>(a.rad, w); break; case FROM_ECL: m = ofF<ac::ecliptic_to_ra_dec>(a.rad, w); break; case TO_ECL: m = ofF<ac::ra_dec_to_ecliptic>(a.rad, w); break; case FROM_GAL: m = M(ac::galactic_to_ra_dec<float>().get()); break; default: m = M(ac::ra_dec_to_galactic<float>().get()); }
    M col = M(MF(w == 0 ? ac::column_vector<double, rad_q, float>(rad_q::from_value(static_cast<double>(u.rad)), rad_q::from_value(static_cast<double>(v.rad))).get() : ac::column_vector<float, radf_q, float>(radf_q::from_value(static_cast<float>(u.rad)), radf_q::from_value(static_cast<float>(v.rad))).get()));
    orthonormal(m, tol, names[k]); coord::same_vector(vec(col), coord::equatorial(u.rad, v.rad, 1), tol, "column vector of float"); M got = ub::prod(m, col); V3 want = formula(k, u.rad, v.rad, a.rad); coord::same_vector(vec(got), want, 2 * tol, names[k]); check_extract(got, want, 3 * tol, names[k]);
}
PBT_PROP(obliquity, 400000, 3000000) {
    namespace g = boost::gregorian; g::date d = g::date(1400, 1, 1) + g::days(static_cast<long>(c.below(3140000))); PBT_SAY(c, g::to_iso_extended_string(d)); c.nontrivial();
    // Julian day number by the integer algorithm of Fliegel and Van Flandern
    long y = d.year(), m = d.month(), k = d.day(), a = (m - 14) / 12, j = (1461 * (y + 4800 + a)) / 4 + (367 * (m - 2 - 12 * a)) / 12 - (3 * ((y + 4900 + a) / 100)) / 4 + k - 32075;
    L t = (j - 2451545.0L) / 36525.0L, e = 23.439292L - (46.815L * t + 0.0006L * t * t - 0.00181L * t * t * t) / 3600.0L; ac::obliquity_of_ecliptic o(d);
    PBT_CHECK(coord::close(o.get().value(), e * PI_L / 180, 1e-13L), "obliquity is " << o.get().value() * 180 / PI_L << " degrees, expected " << e);
    PBT_CHECK(coord::close(o.get().value(), o.get().value(), 0), "obliquity changes");
}
}
