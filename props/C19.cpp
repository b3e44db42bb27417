// C19: Julian dates and sidereal times.
#include "pbt.hpp"
#include <cmath>
#include <boost/astronomy/time/time_conversions.hpp>
namespace pbt {
const char* const property_id = "C19";
const char* const property_rule = "every date from 1400 to 9999 in turn (enumerated) and random instants to the microsecond (midnight, year and month ends, around the calendar reform, last microsecond of a day), longitudes in [-360,360] of both directions; oracle: integer day counts of the Julian and Gregorian calendars and the sidereal formula in long double; non-trivial: every case";
}
namespace c19 {
typedef long double L; namespace g = boost::gregorian; namespace pt = boost::posix_time; namespace bt = boost::astronomy::time; using pbt::Case; using pbt::u64;
const long N_DAYS = 3141000;   // 1400-01-01 .. 9999-09-16 or so; the rest is reached by random dates
static long floor_div(long a, long b) { return a / b - (a % b != 0 && (a % b < 0) != (b < 0)); }
static bool missing(const g::date& d) { return d.year() == 1582 && d.month() == 10 && d.day() >= 5 && d.day() <= 14; }
// day count at noon of a calendar date: Gregorian from 1582-10-15, Julian before
static long jdn(long y, long m, long d) {
    long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; bool greg = y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15)));
    return greg ? d + (153 * mm + 2) / 5 + 365 * yy + floor_div(yy, 4) - floor_div(yy, 100) + floor_div(yy, 400) - 32045 : d + (153 * mm + 2) / 5 + 365 * yy + floor_div(yy, 4) - 32083;
}
static L julian(const g::date& d) { return jdn(d.year(), d.month(), d.day()) - 0.5L; }
static void check_day(const g::date& d, const pt::time_duration& tod) { double j = bt::julian_date(pt::ptime(d, tod)); PBT_CHECK(j == julian(d), "Julian date of " << g::to_iso_extended_string(d) << " is " << std::setprecision(17) << j << ", expected " << julian(d)); }
static g::date gen_date(Case& c) {
    switch (c.below(5)) {
    case 0: return g::date(static_cast<unsigned short>(1582), static_cast<unsigned short>(9 + c.below(3)), static_cast<unsigned short>(1 + c.below(30)));
    case 1: { unsigned short y = static_cast<unsigned short>(1400 + c.below(8600)), m = static_cast<unsigned short>(1 + c.below(12)); return c.flag() ? g::date(y, m, 1).end_of_month() : g::date(y, m, 1); }
    case 2: { static const unsigned short ys[] = {1400, 1500, 1600, 1700, 1800, 1900, 2000, 2100, 4000, 9999}; unsigned short y = ys[c.below(10)]; return g::date(y, 2, 27) + g::days(static_cast<long>(c.below(4))); }
    case 3: return g::date(static_cast<unsigned short>(1900 + c.below(200)), static_cast<unsigned short>(1 + c.below(12)), static_cast<unsigned short>(1 + c.below(28)));
    default: return g::date(1400, 1, 1) + g::days(static_cast<long>(c.below(3141000)));
    }
}
static pt::time_duration gen_tod(Case& c) { const u64 day = 86400000000ULL; switch (c.below(5)) { case 0: return pt::time_duration(0, 0, 0); case 1: return pt::microseconds(static_cast<long long>(day - 1 - c.below(3))); case 2: return pt::hours(static_cast<long>(c.below(24))) + pt::minutes(static_cast<long>(c.below(60))) + pt::seconds(static_cast<long>(c.below(60))); case 3: return pt::microseconds(static_cast<long long>(c.below(4))); default: return pt::microseconds(static_cast<long long>(c.below(day))); } }
static L mod24(L x) { x = std::fmod(x, 24.0L); return x < 0 ? x + 24 : x; }
static L centuries(const g::date& d) { return (julian(d) - 2451545.0L) / 36525.0L; }
static L gst(const g::date& d, const pt::time_duration& t) { L T = centuries(d); L t0 = 6.697374558L + 2400.051336L * T + 0.000025862L * T * T; return mod24(mod24(t0) + t.total_microseconds() / 3600000000.0L * 1.002737909L); }
static bool same_hour(L a, L b, L tol) { L d = std::fabs(a - b); return d <= tol || std::fabs(d - 24) <= tol; }
static void in_range(L h, const char* what) { PBT_CHECK(h >= 0 && h <= 24, what << " is " << h << " hours"); }
static void parts(const decimal_hour& h, const char* what) { L s = h.get_hours() + h.get_minutes() / 60.0L + h.get_seconds() / 3600.0L; PBT_CHECK(std::fabs(s - h.get()) < 1e-12L && h.get_hours() >= 0 && h.get_hours() <= 24 && h.get_minutes() >= 0 && h.get_minutes() < 60 && h.get_seconds() >= 0 && h.get_seconds() < 60, what << " of " << h.get() << " hours is split into " << h.get_hours() << " " << h.get_minutes() << " " << h.get_seconds()); }
PBT_PROP(every_date, 3141000, 3141000) {
    g::date d = g::date(1400, 1, 1) + g::days(static_cast<long>(c.enumerate(3141000))); PBT_SAY(c, g::to_iso_extended_string(d)); c.nontrivial(); if (missing(d)) { c.label("dropped by the reform"); return; }
    check_day(d, pt::time_duration(0, 0, 0)); c.label(julian(d) >= 2299160.5L ? "Gregorian" : "Julian");
    if (d > g::date(1582, 10, 15)) PBT_CHECK(bt::julian_date(pt::ptime(d)) - bt::julian_date(pt::ptime(d - g::days(1))) == 1, "the Julian date does not advance by one to " << g::to_iso_extended_string(d));
}
PBT_PROP(instants, 1500000, 30000000) {
    g::date d = gen_date(c); pt::time_duration t = gen_tod(c); PBT_SAY(c, pt::to_iso_extended_string(pt::ptime(d, t))); c.nontrivial(); if (missing(d)) return;
    check_day(d, t); pt::ptime p(d, t); decimal_hour h = bt::GST(p); L want = gst(d, t); in_range(h.get(), "Greenwich sidereal time"); PBT_CHECK(same_hour(h.get(), want, 5e-10L), "GST is " << std::setprecision(17) << h.get() << ", expected " << want); parts(h, "GST");
    L T = centuries(d); if (std::fabs(T) <= 1) { L iau = mod24((24110.54841L + 8640184.812866L * T + 0.093104L * T * T - 6.2e-6L * T * T * T) / 3600.0L + t.total_microseconds() / 3600000000.0L * 1.00273790935L); PBT_CHECK(same_hour(h.get(), iau, 3e-6L), "GST is " << h.get() << ", the IAU 1982 expression gives " << iau); c.label("within a century of J2000"); }
    if (d > g::date(1582, 10, 16)) { L a = bt::GST(p - g::days(1)).get(); PBT_CHECK(same_hour(mod24(h.get() - a), 0.0657098244L, 1e-5L), "GST advanced by " << h.get() - a << " hours in a day"); }
    double lon; switch (c.below(6)) { case 0: lon = 0; break; case 5: lon = static_cast<double>(c.range(-360, 360)); break; case 1: lon = 15.0 * static_cast<double>(c.range(-24, 24)); break; case 2: lon = c.scaled(-9, 0); break; default: lon = -360 + 720 * c.unit(); }
    bool east = c.flag(); PBT_SAY(c, "longitude " << lon << (east ? " east" : " west")); c.label(east ? "east" : "west");
    decimal_hour l = bt::LST(lon, east ? bt::DIRECTION::EAST : bt::DIRECTION::WEST, p); L wl = mod24(want + (east ? 1 : -1) * static_cast<L>(lon) / 15.0L); in_range(l.get(), "local sidereal time"); PBT_CHECK(same_hour(l.get(), wl, 1e-9L), "LST is " << std::setprecision(17) << l.get() << ", expected " << wl); parts(l, "LST");
    decimal_hour o = bt::LST(-lon, east ? bt::DIRECTION::WEST : bt::DIRECTION::EAST, p); PBT_CHECK(same_hour(o.get(), l.get(), 1e-11L), "longitude " << lon << " east is not " << -lon << " west");
}
}
