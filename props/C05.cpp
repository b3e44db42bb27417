// C05: card text is accepted, rejected and interpreted by the FITS card rules.
#include "cards.hpp"
using namespace cards;
namespace pbt {
const char* const property_id = "C05";
const char* const property_rule = "card texts of 0..90 characters: (a) arbitrary and near-card texts checked for acceptance by the column rules, (b) value cards in fixed and free format with every kind of value and comment, (c) commentary and blank cards; each value is read back in its own type, as text and as types it does not have; non-trivial: at least ten characters";
}
// ---- acceptance ------------------------------------------------------------------------------------
// 1 accepted, 0 refused, -1 not specified (blanks before a reserved
// keyword, a reserved keyword running into column 8)
static int rule(const std::string& t) {
    if (t.size() > 80) return 0;
    if (t.size() >= 10 && t.compare(8, 2, "= ") == 0) return 1;
    std::string k = pad(t.substr(0, 8), 8);
    for (const char* r : {"COMMENT", "HISTORY", "END"}) if (k == pad(r, 8)) return 1;
    if (t.size() >= 8 && k == std::string(8, ' ')) return 1;
    if (t.size() < 8 && trim(t).empty()) return 0;
    if (trim(t.substr(0, 8)).empty()) return -1;
    for (const char* r : {"COMMENT", "HISTORY", "END"}) if (trim(t.substr(0, 7)) == r) return -1;
    return 0;
}
static bool accepted(const std::string& t) { try { card_t k(t); return true; } catch (ba::invalid_card&) { return false; } }

PBT_PROP(acceptance, 120000, 4000000) {
    std::string t;
    switch (c.below(6)) {
    case 0: t = gen_text(c, 90); break;
    case 1: t = pad(gen_key(c), 8) + c.pick<std::string>({"= ", "=", " =", "  ", "=1", "/ ", ""}) + gen_text(c, 80); break;
    case 2: t = c.pick<std::string>({"COMMENT", "HISTORY", "END", "comment", "COMMEN", "HISTORYX", "END=", "E", "ENDING", "CONTINUE", ""}) + gen_text(c, 80); break;
    case 3: t = std::string(c.below(12), ' ') + gen_text(c, 80); break;
    case 4: t = gen_text(c, 8) + std::string(c.below(9), ' ') + "= " + gen_text(c, 75); break;
    default: t = pad(gen_key(c) , 8) + "= " + gen_text(c, 69); if (c.flag()) t = pad(t, 76 + c.below(8)); break;
    }
    int r = rule(t); PBT_SAY(c, "text of " << t.size() << " characters [" << t << "]"); c.label(r == 1 ? "valid" : r == 0 ? "invalid" : "unspecified"); c.nontrivial(t.size() >= 10);
    bool a = accepted(t);
    if (r >= 0) PBT_CHECK(a == (r == 1), (a ? "accepted: [" : "refused: [") << t << "]");
    bio::card_policy pol; PBT_EQ(pol.is_card_valid(t), a, "is_card_valid and the card constructor disagree");
}
// ---- interpretation --------------------------------------------------------------------------------
template <class T> bool casts(const card_t& k) { try { k.value<T>(); return true; } catch (ba::invalid_cast&) { return false; } }

PBT_PROP(value_cards, 150000, 4000000) {
    std::string key = gen_key(c); if (key == "END" || key == "COMMENT" || key == "HISTORY") key = "KEY";
    std::string text, want_s; char kind = "ifsbe"[c.below(5)]; long long iv = 0; double fv = 0; bool bv = false;
    switch (kind) {
    case 'i': iv = c.integer(std::numeric_limits<i64>::min(), std::numeric_limits<i64>::max()); if (c.flag()) iv = c.integer(-2147483647LL - 1, 2147483647LL); text = num(iv); if (iv >= 0 && c.chance(1, 5)) text = "+" + text; else if (iv >= 0 && c.chance(1, 6)) text = "000" + text; want_s = text; break;
    case 'f': text = float_text(c, fv); want_s = text; break;
    case 's': { want_s = gen_text(c, 40); std::string q = quote(want_s); if (q.size() > 66) { want_s = "long"; q = "'long'"; } if (c.flag()) q = "'" + pad(q.substr(1, q.size() - 2), 8) + "'"; text = q; want_s = trim(want_s); break; }
    case 'b': bv = c.flag(); text = bv ? "T" : "F"; want_s = text; break;
    default: break;   // undefined value
    }
    bool fixed = c.flag(); std::string field = kind == 's' ? std::string(fixed ? 0 : c.below(4), ' ') + text : fixed ? rjust(text, 20) : std::string(c.below(10), ' ') + text;
    std::string com; bool has_com = c.flag() && field.size() < 64;
    if (has_com) { com = gen_text(c, 66 - field.size()); std::string sep = c.pick<std::string>({" / ", " /", "/", "  /  "}); if (field.size() + sep.size() + com.size() > 70) com = ""; field += sep + com; }
    if (field.size() > 70) return;
    std::string t = pad(key, 8) + "= " + field; if (c.below(8)) t = pad(t, 80);
    PBT_SAY(c, "[" << t << "] kind " << kind); c.label(std::string("kind ") + kind); c.label(has_com, "comment"); c.label(fixed ? "fixed" : "free"); c.nontrivial();
    card_t k(t);
    PBT_EQ(k.keyword(), key, "keyword"); PBT_EQ(k.keyword(true), pad(key, 8), "keyword(true)"); PBT_EQ(k.raw_card(), t, "card text");
    PBT_CHECK(k.value_with_comment() == trim(t.substr(10)), "value with comment [" << k.value_with_comment() << "]");
    // first read in a random type, so that what was read before does not matter
    switch (c.below(5)) { case 0: casts<int>(k); break; case 1: casts<double>(k); break; case 2: casts<bool>(k); break; case 3: k.value<std::string>(); break; default: break; }
    PBT_CHECK(k.value<std::string>() == want_s, "text value [" << k.value<std::string>() << "], expected [" << want_s << "]");
    switch (kind) {
    case 'i':
        PBT_EQ(k.value<long long>(), iv, "long long value"); PBT_CHECK(!casts<bool>(k), "an integer reads as a logical");
        if (iv >= -2147483648LL && iv <= 2147483647LL) PBT_EQ(k.value<int>(), static_cast<int>(iv), "int value"); else PBT_CHECK(!casts<int>(k), "an integer beyond int reads as " << k.value<int>());
        if (iv >= 0) PBT_EQ(k.value<std::size_t>(), static_cast<std::size_t>(iv), "size_t value"); else PBT_CHECK(!casts<std::size_t>(k) && !casts<unsigned>(k), "a negative integer reads as the unsigned " << k.value<std::size_t>());
        PBT_CHECK(k.value<double>() == static_cast<double>(iv), "integer read as double: " << k.value<double>()); break;
    case 'f':
        PBT_CHECK(k.value<double>() == fv, "double value " << k.value<double>() << ", expected " << fv);
        { std::string e = text; for (char& ch : e) if (ch == 'D') ch = 'E'; float w = std::strtof(e.c_str(), 0); if (std::isfinite(w)) PBT_CHECK(k.value<float>() == w, "float value " << k.value<float>() << ", expected " << w); }
        PBT_CHECK(!casts<int>(k) && !casts<long long>(k) && !casts<std::size_t>(k), "a floating-point number reads as an integer"); PBT_CHECK(!casts<bool>(k), "a number reads as a logical"); break;
    case 's': PBT_CHECK(!casts<int>(k) && !casts<double>(k) && !casts<bool>(k) && !casts<float>(k) && !casts<long long>(k), "quoted text reads as a number or logical"); break;
    case 'b': PBT_EQ(k.value<bool>(), bv, "logical value"); PBT_CHECK(!casts<int>(k) && !casts<double>(k), "a logical reads as a number"); break;
    default: PBT_CHECK(!casts<int>(k) && !casts<double>(k) && !casts<bool>(k), "an undefined value reads as a number or logical"); break;
    }
}
// unquoted text that is nearly a value: it reads as exactly the types whose FITS notation it is
static bool digits(const std::string& t, std::size_t& p) { std::size_t b = p; while (p < t.size() && t[p] >= '0' && t[p] <= '9') p++; return p > b; }
static bool int_notation(const std::string& t) { std::size_t p = !t.empty() && (t[0] == '+' || t[0] == '-'); return digits(t, p) && p == t.size(); }
static bool real_notation(const std::string& t) {
    std::size_t p = !t.empty() && (t[0] == '+' || t[0] == '-'); bool d = digits(t, p);
    if (p < t.size() && t[p] == '.') { p++; d = digits(t, p) || d; }
    if (!d) return false;
    if (p < t.size() && (t[p] == 'E' || t[p] == 'D')) { p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!digits(t, p)) return false; }
    return p == t.size();
}
PBT_PROP(near_values, 100000, 2000000) {
    std::string t;
    switch (c.below(5)) {
    case 0: t = c.pick<std::string>({"T", "F"}) + c.text_of("TF10. truefals", c.below(5)); break;
    case 1: t = c.text_of("TF10.+-", 1 + c.below(4)); break;
    case 2: t = num(static_cast<long long>(c.range(-99999, 99999))) + c.text_of("TF10.+- EDx", c.below(5)); break;
    case 3: { double f; t = float_text(c, f); std::size_t at = c.below(t.size() + 1); t.insert(at, c.text_of("TF10.+- EDx,", c.below(3))); break; }
    default: t = c.pick<std::string>({"t", "f", "TRUE", "FALSE", "true", "1", "0", "T1", "F0", "T T", "+", "-", ".", "E5", "1E", "1.5E", "1 2", "--1", "+-1", "1-", "0x10", "1,5", "1e", "T.", ".T.", "1.", ".5", "-.5", "5.E3"}); break;
    }
    t = trim(t); if (t.empty() || t.size() > 60) return;
    std::string card = pad("KEY", 8) + "= " + (c.flag() ? rjust(t, 20) : t); if (c.flag()) card += " / comment"; card = pad(card, 80);
    bool b = t == "T" || t == "F", i = int_notation(t), r = real_notation(t);
    PBT_SAY(c, "[" << card << "]"); c.label(b ? "logical" : i ? "integer" : r ? "real" : "none"); c.nontrivial(!b && !r); if (card.size() > 80) return;
    card_t k(card); PBT_CHECK(k.value<std::string>() == t, "text value [" << k.value<std::string>() << "], expected [" << t << "]");
    if (!b) PBT_CHECK(!casts<bool>(k), "[" << t << "] reads as the logical " << k.value<bool>()); else PBT_EQ(k.value<bool>(), t == "T", "logical value");
    if (!i) PBT_CHECK(!casts<int>(k) && !casts<long long>(k) && !casts<std::size_t>(k), "[" << t << "] reads as an integer"); else if (t.size() < 10) { PBT_EQ(k.value<int>(), std::atoi(t.c_str()), "int value"); if (std::atoi(t.c_str()) < 0) PBT_CHECK(!casts<std::size_t>(k) && !casts<unsigned>(k), "a negative integer reads as an unsigned one"); else { PBT_EQ(k.value<std::size_t>(), static_cast<std::size_t>(std::atoi(t.c_str())), "size_t value"); PBT_EQ(k.value<unsigned>(), static_cast<unsigned>(std::atoi(t.c_str())), "unsigned value"); } }
    if (!r) PBT_CHECK(!casts<double>(k) && !casts<float>(k), "[" << t << "] reads as the number " << (casts<double>(k) ? k.value<double>() : 0.0));
    else { std::string e = t; for (char& ch : e) if (ch == 'D') ch = 'E'; double w = std::strtod(e.c_str(), 0); if (std::isfinite(w) && (w == 0 || std::fabs(w) > 1e-300)) PBT_CHECK(k.value<double>() == w, "double value " << k.value<double>() << ", expected " << w); }
}
PBT_PROP(commentary_cards, 40000, 800000) {
    std::string key = c.pick<std::string>({"COMMENT", "HISTORY", ""}), s = gen_text(c, 72); if (s.size() > 1 && s[0] == '=' && s[1] == ' ') s[0] = 'x'; if (s == "=") s = "x";
    bool bare = c.chance(1, 12); if (bare) { if (key.empty() || c.flag()) key = "END"; s = ""; }
    std::string t = bare ? pad(key, key.size() + c.below(9 - key.size())) : pad(key, 8) + s; if (c.below(6) && !bare) t = pad(t, 80); PBT_SAY(c, "[" << t << "]"); c.label(bare, "keyword only"); c.nontrivial(bare || !trim(s).empty()); c.label(key.empty() ? "blank keyword" : key);
    card_t k(t); PBT_EQ(k.keyword(), key, "keyword"); PBT_CHECK(k.value<std::string>() == trim(s), "text [" << k.value<std::string>() << "], expected [" << trim(s) << "]");
    PBT_CHECK(k.value_with_comment() == trim(s), "value_with_comment [" << k.value_with_comment() << "], expected [" << trim(s) << "]");
}
