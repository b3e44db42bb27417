// C20: decimal hours and hours, minutes, seconds.
#include "pbt.hpp"
#include <cmath>
#include <boost/astronomy/time/parser.hpp>
namespace pbt {
const char* const property_id = "C20";
const char* const property_rule = "times of day in [0,24): whole and half hours, minutes and seconds, the doubles next to them, tiny and arbitrary values; hours 0..23, minutes 0..59, seconds in [0,60) with fractions; splitting, recombining, copying and printing against long double arithmetic; non-trivial: a time with minutes or seconds";
}
namespace c20 {
typedef long double L; using pbt::Case; using pbt::u64;
static double gen_seconds(Case& c) { switch (c.below(5)) { case 0: return 0; case 1: return static_cast<double>(c.below(60)); case 2: return static_cast<double>(c.below(60000)) / 1000; case 3: return std::nextafter(60.0, 0.0); default: return 60 * c.unit() < 60 ? 60 * c.unit() : 0; } }
static double gen_hour(Case& c) {
    double d; switch (c.below(6)) { case 0: d = static_cast<double>(c.below(48)) / 2; break; case 1: d = static_cast<double>(c.below(1440)) / 60; break; case 2: d = static_cast<double>(c.below(86400)) / 3600; break; case 3: d = static_cast<double>(1 + c.below(86399)) / 3600; for (u64 k = c.below(3); k-- > 0;) d = std::nextafter(d, c.flag() ? 30.0 : 0.0); break; case 4: d = c.scaled(-12, 0, false); break; default: d = 24 * c.unit(); }
    return d < 24 && d >= 0 ? d : 0;
}
static void printed(const decimal_hour& t) {
    std::ostringstream o; o << t; std::string s = o.str(); long h = -1, m = -1; double sec = -1; int used = 0; int n = std::sscanf(s.c_str(), "Hours: %ldh %ldm %lfs %n", &h, &m, &sec, &used);
    PBT_CHECK(n == 3 && h == t.get_hours() && m == t.get_minutes() && std::fabs(sec - t.get_seconds()) <= 5.1e-7, "printed as \"" << s << "\" for " << t.get_hours() << " " << t.get_minutes() << " " << t.get_seconds());
}
PBT_PROP(split, 2000000, 30000000) {
    double d = gen_hour(c); PBT_SAY(c, std::setprecision(17) << d); decimal_hour t(d); c.nontrivial(d != std::floor(d)); PBT_EQ(t.get(), d, "decimal value");
    long h = t.get_hours(), m = t.get_minutes(); double s = t.get_seconds(); PBT_CHECK(h == static_cast<long>(d) && m >= 0 && m < 60 && s >= 0 && s < 60, "split into " << h << " " << m << " " << s);
    PBT_CHECK(std::fabs(h + m / 60.0L + s / 3600.0L - d) <= 1e-14L, "parts " << h << " " << m << " " << std::setprecision(17) << s << " of another time"); L rem = static_cast<L>(d - static_cast<double>(h)) * 60; if (std::fabs(rem - std::round(rem)) > 1e-12L) PBT_EQ(m, static_cast<long>(rem), "minutes");
    decimal_hour u(static_cast<double>(h), static_cast<double>(m), s); PBT_CHECK(std::fabs(static_cast<L>(u.get()) - d) <= 2e-14L && u.get_hours() == h && u.get_minutes() == m && u.get_seconds() == s, "recombined to " << u.get());
    printed(t); decimal_hour k(t); k = t; PBT_CHECK(k.get() == d && k.get_hours() == h && k.get_minutes() == m && k.get_seconds() == s, "a copy differs");
}
PBT_PROP(combine, 2000000, 30000000) {
    long h = static_cast<long>(c.below(24)), m = static_cast<long>(c.below(60)); double s = gen_seconds(c); PBT_SAY(c, h << " " << m << " " << std::setprecision(17) << s); c.nontrivial(m || s > 0); decimal_hour t(static_cast<double>(h), static_cast<double>(m), s);
    PBT_CHECK(t.get_hours() == h && t.get_minutes() == m && t.get_seconds() == s, "reports " << t.get_hours() << " " << t.get_minutes() << " " << t.get_seconds()); L w = h + m / 60.0L + static_cast<L>(s) / 3600.0L; PBT_CHECK(std::fabs(t.get() - w) <= 2e-14L, "decimal value " << t.get() << ", expected " << w);
    decimal_hour u(t.get()); PBT_CHECK(std::fabs((u.get_hours() - h) * 3600.0L + (u.get_minutes() - m) * 60.0L + (static_cast<L>(u.get_seconds()) - s)) <= 1e-10L, "split again into " << u.get_hours() << " " << u.get_minutes() << " " << u.get_seconds()); printed(t);
}
}
