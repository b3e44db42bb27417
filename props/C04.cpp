// C04: creating a card and reading its value back returns what was stored.
#include "cards.hpp"
using namespace cards;
namespace pbt {
const char* const property_id = "C04";
const char* const property_rule = "keywords of 1..8 (or 9..12) characters; values of every supported type over their whole range (boundary and random-mantissa floats, text of 0..90 printable characters heavy on quotes, slashes and blanks), with and without a comment, through every way of creating a card; the 80 columns are read by an independent reader; non-trivial: a value other than 0, F or the empty text";
}
template <class T> struct same_ { static bool eq(T a, T b) { return a == b && std::signbit(static_cast<double>(a)) == std::signbit(static_cast<double>(b)); } };
template <> struct same_<bool> { static bool eq(bool a, bool b) { return a == b; } };
template <class T> struct same_<std::complex<T>> { static bool eq(const std::complex<T>& a, const std::complex<T>& b) { return same_<T>::eq(a.real(), b.real()) && same_<T>::eq(a.imag(), b.imag()); } };
template <class T> std::string show(const T& v) { std::ostringstream o; o << std::setprecision(20) << v; return o.str(); }

// layout of a value card and its comment
static void layout(card_t& k, const std::string& key, const std::string& comment) {
    const std::string r = k.raw_card();
    PBT_EQ(r.size(), std::size_t(80), "length of the card");
    for (char ch : r) PBT_CHECK(ch >= 32 && ch < 127, "card with a non-text byte");
    PBT_CHECK(r.substr(0, 8) == pad(key, 8), "columns 1-8 are [" << r.substr(0, 8) << "], keyword is [" << key << "]");
    PBT_CHECK(r.compare(8, 2, "= ") == 0, "columns 9-10 are [" << r.substr(8, 2) << "]");
    PBT_EQ(k.keyword(), key, "keyword()"); PBT_EQ(k.keyword(true), pad(key, 8), "keyword(true)");
    std::string v = r.substr(10); bool q = false; std::size_t i = 0; for (; i < v.size(); i++) { if (v[i] == '\'') q = !q; else if (v[i] == '/' && !q) break; }
    std::string com = i < v.size() ? v.substr(i + 1) : "";
    PBT_CHECK(trim(com) == trim(comment), "the comment of the card is [" << com << "], expected [" << comment << "]");
    PBT_CHECK(k.value_with_comment() == trim(r.substr(10)), "value_with_comment() is [" << k.value_with_comment() << "]");
}
static std::string gen_comment(Case& c, std::size_t max) { return c.flag() ? "" : trim(gen_text(c, max)); }

template <class T> void roundtrip(Case& c, T v, std::size_t room, const char* type) {
    std::string key = gen_key(c), com = gen_comment(c, room);
    PBT_SAY(c, type << " card " << key << " = " << show(v) << " comment [" << com << "]"); c.label(type); c.label(!com.empty(), "comment"); c.nontrivial(!(v == T()));
    card_t k; k.create_card(key, v, com); layout(k, key, com);
    PBT_CHECK(same_<T>::eq(k.value<T>(), v), type << " value: got " << show(k.value<T>()) << ", stored " << show(v) << " in [" << k.raw_card() << "]");
    card_t p(k.raw_card()); PBT_CHECK(same_<T>::eq(p.value<T>(), v), type << " value parsed from the card text: got " << show(p.value<T>()) << ", stored " << show(v) << " in [" << k.raw_card() << "]");
    PBT_EQ(p.keyword(), key, "keyword of the parsed card");
    card_t s; s.create_card(key, std::string("before"), std::string("other")); s.set_value(v);
    PBT_CHECK(same_<T>::eq(s.value<T>(), v), type << " value after set_value: got " << show(s.value<T>()) << ", stored " << show(v)); layout(s, key, s.raw_card().find('/') == std::string::npos ? "" : "other");
}
// the number in the card, read by strtod / strtoll from the text
template <class T> void number_text(card_t& k, T v) {
    std::string t = raw_value(k.raw_card()); char* e = 0;
    if (std::is_integral<T>::value) { PBT_CHECK(t == show(v), "integer written as [" << t << "]"); PBT_CHECK(k.raw_card().substr(10, 20) == rjust(show(v), 20), "integer not in columns 11-30: " << k.raw_card()); }
    else { for (char& ch : t) if (ch == 'D') ch = 'E'; T w = sizeof(T) == 4 ? static_cast<T>(std::strtof(t.c_str(), &e)) : static_cast<T>(std::strtod(t.c_str(), &e)); PBT_CHECK(!t.empty() && *e == 0, "number written as [" << t << "]"); PBT_CHECK(w == v, "number " << show(v) << " written as [" << t << "]"); if (t.size() <= 20) PBT_CHECK(k.raw_card().substr(10, 20) == rjust(t, 20), "number not right-justified in columns 11-30: " << k.raw_card()); }
}
template <class T> void numeric(Case& c, T v, const char* type) { roundtrip<T>(c, v, 42, type); card_t k; std::string key = gen_key(c); k.create_card(key, v); number_text<T>(k, v); }

PBT_PROP(integers, 60000, 2000000) {
    switch (c.below(4)) {
    case 0: numeric<int>(c, static_cast<int>(c.integer(std::numeric_limits<int>::min(), std::numeric_limits<int>::max())), "int"); break;
    case 1: numeric<unsigned>(c, static_cast<unsigned>(c.integer(0, std::numeric_limits<unsigned>::max())), "unsigned"); break;
    case 2: numeric<long long>(c, c.integer(std::numeric_limits<i64>::min(), std::numeric_limits<i64>::max()), "long long"); break;
    default: { u64 v = c.flag() ? c.upto(~u64(0)) : ~u64(0) - c.below(5); numeric<std::size_t>(c, v, "size_t"); } }
}
PBT_PROP(logicals, 3000, 30000) {
    bool v = c.flag(); roundtrip<bool>(c, v, 46, "bool"); card_t k; k.create_card("L", v); PBT_CHECK(k.raw_card().substr(10, 20) == rjust(v ? "T" : "F", 20), "logical not in column 30: " << k.raw_card());
}
PBT_PROP(floats, 120000, 4000000) { if (c.flag()) numeric<double>(c, gen_float<double>(c), "double"); else numeric<float>(c, gen_float<float>(c), "float"); }
PBT_PROP(complexes, 40000, 1000000) {
    switch (c.below(3)) {
    case 0: { double a = gen_float<double>(c), b = gen_float<double>(c); roundtrip<std::complex<double>>(c, {a, b}, 15, "complex<double>"); break; }
    case 1: { float a = gen_float<float>(c), b = gen_float<float>(c); roundtrip<std::complex<float>>(c, {a, b}, 20, "complex<float>"); break; }
    default: { int a = static_cast<int>(c.integer(-2147483647, 2147483647)), b = static_cast<int>(c.integer(-2147483647, 2147483647)); roundtrip<std::complex<int>>(c, {a, b}, 20, "complex<int>"); } }
}
// text, of any length: stored and read back if it fits, refused otherwise
PBT_PROP(text, 120000, 3000000) {
    std::string key = gen_key(c, 8), s = gen_text(c, c.flag() ? 20 : 90), com = gen_comment(c, c.flag() ? 20 : 90);
    if (c.chance(1, 8)) key = c.text_of(key_set(), 9 + c.below(4));
    if (c.chance(1, 4)) { // right at the limit
        std::size_t q = quote(s).size(), room = com.empty() ? 70 : 68 - std::min<std::size_t>(com.size(), 60); long long d = static_cast<long long>(room) - static_cast<long long>(q) + c.range(-1, 2); if (d > 0) s += std::string(static_cast<std::size_t>(d), 'x'); }
    std::size_t need = quote(s).size() + (com.empty() ? 0 : 2 + com.size()); bool fits = need <= 70 && key.size() <= 8;
    int how = static_cast<int>(c.below(3)); PBT_SAY(c, "text card " << key << " = [" << s << "] comment [" << com << "] way " << how << (fits ? "" : " (does not fit)"));
    c.label(fits ? "fits" : "does not fit"); c.nontrivial(!s.empty()); c.label(s.find('/') != std::string::npos, "slash in text"); c.label(s.find('\'') != std::string::npos, "quote in text"); c.label(need == 70, "exactly 80 columns");
    card_t k; bool refused = false;
    try {
        if (how == 0) k.create_card(key, s, com); else if (how == 1) k = card_t(key, s, com); else k.create_card(key, s.c_str(), com);
    } catch (ba::invalid_card&) { refused = true; }
    PBT_CHECK(refused == !fits, (refused ? "refused although it fits in " : "accepted although it needs ") << need << " of 70 columns, keyword of " << key.size() << " characters");
    if (refused) return;
    layout(k, key, com);
    PBT_CHECK(raw_string(raw_value(k.raw_card())) == trim(s), "text in the card is [" << k.raw_card() << "], stored [" << s << "]");
    PBT_CHECK(k.value<std::string>() == trim(s), "text value: got [" << k.value<std::string>() << "], stored [" << s << "]");
    card_t p(k.raw_card()); PBT_CHECK(p.value<std::string>() == trim(s), "text value parsed: got [" << p.value<std::string>() << "], stored [" << s << "]");
}
// commentary cards keep their text
PBT_PROP(commentary, 20000, 400000) {
    std::string key = c.pick<std::string>({"COMMENT", "HISTORY"}), s = gen_text(c, 90); if (!s.empty() && s[0] == '=') s[0] = 'x';
    bool fits = s.size() <= 71; PBT_SAY(c, key << " [" << s << "]"); c.nontrivial(!trim(s).empty()); c.label(fits ? "fits" : "does not fit");
    card_t k; bool refused = false; try { k.create_commentary_card(key, s); } catch (ba::invalid_card&) { refused = true; }
    if (!fits) { if (s.size() > 72) PBT_CHECK(refused, "commentary of " << s.size() << " characters accepted"); if (refused) return; }
    PBT_CHECK(!refused, "commentary of " << s.size() << " characters refused");
    PBT_EQ(k.raw_card().size(), std::size_t(80), "length of the commentary card"); PBT_EQ(k.keyword(), key, "keyword");
    PBT_CHECK(k.value<std::string>() == trim(s), "commentary text: got [" << k.value<std::string>() << "], stored [" << s << "]");
    card_t p(k.raw_card()); PBT_CHECK(p.value<std::string>() == trim(s), "commentary text parsed: got [" << p.value<std::string>() << "]");
    bool long_key = false; try { k.create_commentary_card("COMMENTARY", s); } catch (ba::invalid_card&) { long_key = true; } PBT_CHECK(long_key, "commentary keyword of 10 characters accepted");
}
