// C06: a card always answers from its latest content.
#include "cards.hpp"
using namespace cards;
namespace pbt {
const char* const property_id = "C06";
const char* const property_rule = "histories of 2..25 operations on up to three card objects (create with every value type, commentary, set_value, refused operations, copy, assign, parse, reads in matching and non-matching types), checked against a model of the last stored content after every step; non-trivial: a card is overwritten after having been read";
}
struct Model { bool set = false; std::string key; char kind = 0; long long i = 0; double f = 0; float g = 0; bool b = false; std::string s; std::complex<double> z; bool commentary = false; };
template <class T> bool casts(const card_t& k) { try { k.value<T>(); return true; } catch (ba::invalid_cast&) { return false; } }

static void read_one(Case& c, card_t& k, const Model& m) {
    if (!m.set) return;
    PBT_EQ(k.keyword(), m.key, "keyword");
    switch (c.below(6)) {
    case 0: case 1: case 2: // own type
        switch (m.kind) {
        case 'i': PBT_EQ(k.value<long long>(), m.i, "long long value"); if (m.i >= -2147483647LL && m.i <= 2147483647LL) PBT_EQ(k.value<int>(), static_cast<int>(m.i), "int value"); break;
        case 'd': PBT_CHECK(k.value<double>() == m.f, "double value " << k.value<double>() << ", expected " << m.f); break;
        case 'f': PBT_CHECK(k.value<float>() == m.g, "float value " << k.value<float>() << ", expected " << m.g); break;
        case 'b': PBT_EQ(k.value<bool>(), m.b, "logical value"); break;
        case 'z': PBT_CHECK(k.value<std::complex<double>>() == m.z, "complex value " << k.value<std::complex<double>>() << ", expected " << m.z); break;
        default: PBT_CHECK(k.value<std::string>() == m.s, "text value [" << k.value<std::string>() << "], expected [" << m.s << "]"); }
        break;
    case 3: // as text
        if (m.kind == 'i') PBT_EQ(k.value<std::string>(), num(m.i), "integer as text"); else if (m.kind == 'b') PBT_EQ(k.value<std::string>(), std::string(m.b ? "T" : "F"), "logical as text"); else if (m.kind == 's') PBT_EQ(k.value<std::string>(), m.s, "text"); break;
    case 4: // as another number type
        if (m.kind == 'i') { PBT_CHECK(k.value<double>() == static_cast<double>(m.i), "integer as double"); PBT_CHECK(k.value<float>() == static_cast<float>(m.i), "integer as float"); }
        else if (m.kind == 'b') PBT_CHECK(!casts<int>(k) && !casts<double>(k), "logical reads as number");
        break;
    default: if (m.kind == 'i' || m.kind == 'd' || m.kind == 'z') PBT_CHECK(!casts<bool>(k), "a number reads as logical"); break;
    }
}
static void check_text(card_t& k, const Model& m) {
    if (!m.set) return; const std::string r = k.raw_card(); PBT_EQ(r.size(), std::size_t(80), "card length");
    PBT_CHECK(r.substr(0, 8) == pad(m.key, 8), "keyword columns [" << r.substr(0, 8) << "], expected [" << m.key << "]");
    if (!m.commentary) PBT_CHECK(r.compare(8, 2, "= ") == 0, "columns 9-10 of [" << r << "]");
    std::string v = m.commentary ? trim(r.substr(8)) : raw_value(r);
    switch (m.kind) {
    case 'i': PBT_EQ(v, num(m.i), "integer in the card text"); break;
    case 'b': PBT_EQ(v, std::string(m.b ? "T" : "F"), "logical in the card text"); break;
    case 's': PBT_EQ(m.commentary ? v : raw_string(v), m.s, "text in the card text"); break;
    case 'd': PBT_CHECK(std::strtod(v.c_str(), 0) == m.f, "number in the card text: " << v); break;
    default: break;
    }
}
// stores a random value, by create_card (comment: any) or set_value
template <class Put> void store(Case& c, Model& m, Put put) {
    switch (c.below(6)) {
    case 0: m.kind = 'i'; m.i = c.integer(-2147483647LL, 2147483647LL); put(static_cast<int>(m.i)); PBT_SAY(c, "   int " << m.i); break;
    case 1: m.kind = 'i'; m.i = c.integer(std::numeric_limits<i64>::min(), std::numeric_limits<i64>::max()); put(m.i); PBT_SAY(c, "   long long " << m.i); break;
    case 2: m.kind = 'd'; m.f = gen_float<double>(c); put(m.f); PBT_SAY(c, "   double " << m.f); break;
    case 3: m.kind = 'b'; m.b = c.flag(); put(m.b); PBT_SAY(c, "   bool " << m.b); break;
    case 4: m.kind = 'z'; m.z = {gen_float<double>(c), gen_float<double>(c)}; put(m.z); PBT_SAY(c, "   complex " << m.z); break;
    default: { std::string s = gen_text(c, 30); m.kind = 's'; m.s = trim(s); put(s); PBT_SAY(c, "   text [" << s << "]"); break; }
    }
    m.commentary = false; m.set = true;
}
PBT_PROP(histories, 250000, 3000000) {
    card_t k[3]; Model m[3]; bool was_read[3] = {false, false, false}; std::size_t steps = 2 + c.below(24);
    for (std::size_t s = 0; s < steps; s++) {
        std::size_t a = c.below(3), b = c.below(3);
        switch (c.below(11)) {
        case 0: case 1: { std::string key = gen_key(c), com = c.flag() ? "" : trim(gen_text(c, 8)); if (key == "COMMENT" || key == "HISTORY" || key == "END") key = "X"; PBT_SAY(c, "card" << a << ".create_card(" << key << ", .., [" << com << "])"); c.nontrivial(was_read[a]); m[a].key = key; card_t& t = k[a]; store(c, m[a], [&](auto v) { t.create_card(key, v, com); }); break; }
        case 2: case 3: if (m[a].set && !m[a].commentary) { PBT_SAY(c, "card" << a << ".set_value"); c.nontrivial(was_read[a]); card_t& t = k[a]; store(c, m[a], [&](auto v) { t.set_value(v); }); } break;
        case 4: { std::string key = c.pick<std::string>({"COMMENT", "HISTORY"}), t = trim(gen_text(c, 40)); if (!t.empty() && t[0] == '=') t[0] = '-'; PBT_SAY(c, "card" << a << " commentary " << key << " [" << t << "]"); c.nontrivial(was_read[a]); k[a].create_commentary_card(key, t); m[a] = Model(); m[a].set = true; m[a].commentary = true; m[a].key = key; m[a].kind = 's'; m[a].s = t; break; }
        case 5: { // refused: too long
            if (!m[a].set) break; std::string before = k[a].raw_card(); bool refused = false; std::string longtext(71 + c.below(20), 'q'); int how = static_cast<int>(c.below(4)); PBT_SAY(c, "card" << a << " refused operation " << how);
            try { if (how == 0) k[a].create_card("KEY", longtext); else if (how == 1) k[a].create_card("LONGKEYWORD", 5); else if (how == 2) { if (m[a].commentary) break; k[a].set_value(longtext); } else k[a].create_commentary_card("COMMENT", longtext + longtext); } catch (ba::invalid_card&) { refused = true; }
            if (how == 2 && m[a].commentary) break;
            PBT_CHECK(refused, "content that does not fit was accepted"); PBT_EQ(k[a].raw_card(), before, "card text after a refused operation"); break; }
        case 6: PBT_SAY(c, "card" << a << " = card" << b); if (a != b) { k[a] = k[b]; m[a] = m[b]; was_read[a] = was_read[b]; } break;
        case 7: { PBT_SAY(c, "copy of card" << a); card_t x(k[a]); if (m[a].set) { read_one(c, x, m[a]); Model y = m[a]; PBT_CHECK(x == k[a], "a copy differs"); if (!m[a].commentary) { x.set_value(c.range(0, 9) == 0 ? 77 : 78); PBT_CHECK(x.value<int>() >= 77, "set_value on a copy"); } read_one(c, k[a], y); } break; }
        case 8: if (m[a].set) { PBT_SAY(c, "card" << a << " parsed into card" << b); card_t x(k[a].raw_card()); k[b] = x; if (a != b) { m[b] = m[a]; } c.nontrivial(was_read[b]); } break;
        default: PBT_SAY(c, "read card" << a); read_one(c, k[a], m[a]); was_read[a] = m[a].set; break;
        }
        for (int i = 0; i < 3; i++) { check_text(k[i], m[i]); for (int j = 0; j < 3; j++) if (m[i].set && m[j].set) PBT_EQ(k[i] == k[j], k[i].raw_card() == k[j].raw_card(), "card equality"); }
        // a card whose text differs in one column, or whose text is moved by one column, is another card
        if (m[a].set && c.chance(1, 3)) {
            std::string r = k[a].raw_card(), t = r; std::size_t at = 10 + c.below(70);
            switch (c.below(4)) { case 0: t[at] = c.flag() ? ' ' : printable_set()[c.below(95)]; break; case 1: t = pad(t.substr(0, at) + " " + t.substr(at), 80).substr(0, 80); break; case 2: t = pad(t.substr(0, at) + t.substr(at + 1), 80); break; default: t[at] = static_cast<char>(std::isupper(static_cast<unsigned char>(t[at])) ? std::tolower(t[at]) : std::toupper(t[at])); break; }
            card_t o(t); PBT_EQ(k[a] == o, r == t, "equality of [" << r << "] and [" << t << "]"); PBT_EQ(o == k[a], r == t, "equality of [" << t << "] and [" << r << "]"); }
        read_one(c, k[a], m[a]);
    }
    for (int i = 0; i < 3; i++) for (int r = 0; r < 3; r++) read_one(c, k[i], m[i]);
}
