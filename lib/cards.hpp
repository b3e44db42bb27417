// Independent model of FITS cards: generators and readers of 80-column card text.
#pragma once
#include "fitsgen.hpp"
#include <complex>
#include <boost/astronomy/io/card.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>

namespace cards {
using namespace fitsgen;
namespace ba = boost::astronomy;
namespace bio = boost::astronomy::io;
typedef bio::card<bio::card_policy> card_t;

inline std::string gen_key(Case& c, std::size_t max = 8) {
    if (c.chance(1, 6)) return c.pick<std::string>({"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "TFORM12", "DATE-OBS", "A", "TZERO999", "END", "COMMENT", "HISTORY"});
    if (c.chance(1, 12)) { std::string k = near_key(c); return k.substr(0, max); }
    return c.text_of(key_set(), 1 + c.below(max));
}
inline std::string gen_text(Case& c, std::size_t max) {    // any printable text, blanks included, heavy on / and '
    std::size_t n = c.size(max); std::string s;
    for (std::size_t i = 0; i < n; i++) s += c.below(3) == 0 ? "/'  =T'"[c.below(7)] : printable_set()[(c.below(95) + 33) % 95];
    return s;
}
// doubles of every magnitude: small decimals, random mantissas, powers, denormals, extremes; never NaN or infinity
template <class T> T gen_float(Case& c) {
    typedef std::numeric_limits<T> L;
    T v;
    switch (c.below(8)) {
    case 0: v = static_cast<T>(c.range(-1000, 1000)); break;
    case 1: v = static_cast<T>(c.range(-1000000, 1000000)) / static_cast<T>(1000); break;
    case 2: v = c.pick<T>({T(0), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(1) / T(3), T(1e5), T(1e6), T(123456.5), T(1234567), T(0.1)}); break;
    case 3: v = std::ldexp(static_cast<T>(c.unit() + 0.5), static_cast<int>(c.range(L::min_exponent - 20, L::max_exponent - 1))); break;
    case 4: v = static_cast<T>(std::pow(10.0, static_cast<double>(c.range(-30, 30)))); break;
    default: v = static_cast<T>((c.unit() - 0.5) * std::pow(10.0, static_cast<double>(c.range(-12, 12)))); break;
    }
    if (c.flag()) v = -v;
    return v;
}
} // namespace cards
