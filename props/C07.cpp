// C07: header queries agree with the cards of the header.
#include "tables.hpp"
using namespace tables;
namespace pbt {
const char* const property_id = "C07";
const char* const property_rule = "header blocks of primary, image, ASCII and binary HDUs with up to 100 cards (all value kinds, commentary and blank cards, exact-record headers) read from a byte stream at random positions; histories of reads into one object; equality against headers with one card changed, moved, added or removed; non-trivial: more than the mandatory cards";
}
static Hdu gen_any(Case& c) { switch (c.below(4)) { case 0: return gen_primary(c, 3000, 90); case 1: return gen_ascii(c); case 2: return gen_binary(c); default: return gen_image(c); } }
static header_t read_at(Case& c, const std::string& block, std::size_t at, std::size_t* end = nullptr) {
    std::string p = c.dir + "/h.hdr"; write_file(p, std::string(at, 'x') + block); bio::fits_stream s; s.set_file(p); s.set_reading_pos(at); header_t h; h.read_header(s); if (end) *end = s.get_current_pos(); return h;
}
static std::set<std::string> keys_of(const Hdu& m) { std::set<std::string> s; for (auto& k : m.cards) s.insert(trim(k.substr(0, 8))); s.insert("END"); return s; }
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
template <class F> bool throws_range(F f) { try { f(); } catch (std::out_of_range&) { return true; } return false; }

static void check_missing(Case& c, header_t& h, const Hdu& m) {
    auto keys = keys_of(m);
    for (int i = 0; i < 4; i++) {
        std::string k = i == 0 ? "NAXIS" + num(static_cast<long long>(m.naxis.size()) + 1) : i == 1 && !m.values.empty() ? std::next(m.values.begin(), static_cast<long>(c.below(m.values.size())))->first + "X" : c.text_of(key_set(), 1 + c.below(8));
        if (i == 3 && !m.values.empty()) { k = std::next(m.values.begin(), static_cast<long>(c.below(m.values.size())))->first; k.pop_back(); }
        if (k.empty() || keys.count(k)) continue;
        PBT_CHECK(!h.contains_keyword(k), "contains_keyword(" << k << ") although there is no such card");
        PBT_CHECK(throws_range([&] { h.value_of<std::string>(k); }), "value_of(" << k << ") of a missing keyword is not reported as std::out_of_range"); PBT_CHECK(throws_range([&] { h.value_of<int>(k); }), "value_of<int>(" << k << ") of a missing keyword is not reported");
        PBT_CHECK(!h.contains_keyword(k), "asking for " << k << " created it");
    }
    for (auto& k : keys) if (!k.empty()) PBT_CHECK(h.contains_keyword(k), "keyword " << k << " not found");
    for (std::size_t n : {std::size_t(0), m.naxis.size() + 1, m.naxis.size() + 1000, ~std::size_t(0)}) PBT_CHECK(throws([&] { h.naxis(n); }), "naxis(" << n << ") of a header with " << m.naxis.size() << " dimensions is not reported");
}
PBT_PROP(queries, 25000, 600000) {
    Hdu m = gen_any(c); if (c.describe) c.say_s(summary(m)); c.nontrivial(m.cards.size() > 6); c.label(m.name()); c.label((m.cards.size() + 1) % 36 == 0, "exact header");
    std::size_t at = c.chance(1, 3) ? 80 * c.below(100) : 0, end = 0;
    std::string block; for (auto& k : m.cards) block += k; block += pad("END", 80); std::string tail = c.flag() ? std::string(c.below(4000), c.flag() ? ' ' : 'E') : "";
    header_t h = read_at(c, block + tail, at, &end);
    PBT_EQ(end, at + block.size(), "position after the END card");
    check_header(h, m); check_missing(c, h, m); check_header(h, m);
    // wrong types are reported
    for (auto& kv : m.values) if (kv.second.kind == 's' && !kv.second.s.empty()) { PBT_CHECK(throws([&] { h.value_of<bool>(kv.first); }), kv.first << " is text but reads as logical"); break; }
}
PBT_PROP(reread, 6000, 150000) {
    header_t h; std::size_t n = 2 + c.below(3);
    for (std::size_t i = 0; i < n; i++) {
        Hdu m = gen_any(c); if (c.describe) c.say_s(summary(m)); c.nontrivial(i > 0); std::string p = c.dir + "/h.hdr"; write_file(p, header_bytes(m)); bio::fits_stream s; s.set_file(p); h.read_header(s);
        check_header(h, m); check_missing(c, h, m); if (c.flag()) { header_t copy = h; check_header(copy, m); }
    }
}
PBT_PROP(equality, 12000, 300000) {
    Hdu a = gen_any(c), b = a; int how = static_cast<int>(c.below(7)); std::size_t i = 5 + c.below(a.cards.size() > 5 ? a.cards.size() - 5 : 1);
    std::size_t mand = a.cards.size();   // cards behind the mandatory ones may be changed freely
    for (mand = 0; mand < a.cards.size(); mand++) { std::string k = trim(a.cards[mand].substr(0, 8)); if (k[0] == 'Z' || k[0] == 'Y' || k.empty() || k == "COMMENT" || k == "HISTORY") break; }
    switch (how) {
    case 0: break;                                                     // the same
    case 1: b.cards.insert(b.cards.begin() + static_cast<long>(mand), pad("COMMENT   added", 80)); break;
    case 2: if (mand < a.cards.size()) b.cards.erase(b.cards.begin() + static_cast<long>(mand)); break;
    case 3: if (mand < a.cards.size()) { i = mand + c.below(a.cards.size() - mand); b.cards[i] = pad(a.cards[i].substr(0, 8) + "= 'changed'", 80); if (trim(a.cards[i].substr(0, 8)).empty() || a.cards[i].compare(8, 2, "= ")) b.cards[i] = pad("COMMENT   changed", 80); } break;
    case 4: if (mand + 1 < a.cards.size()) { i = mand + c.below(a.cards.size() - mand - 1); std::swap(b.cards[i], b.cards[i + 1]); } break;
    case 5: if (mand < a.cards.size()) { i = mand + c.below(a.cards.size() - mand); std::string& t = b.cards[i]; if (t[79] == ' ') { std::size_t at = 10 + c.below(69); t = (t.substr(0, at) + " " + t.substr(at)).substr(0, 80); } } break;    // the rest of a card moved by one column
    default: { for (auto& k : b.cards) if (k.substr(0, 6) == "NAXIS " || k.substr(0, 8) == "EXTEND  ") k = k.substr(0, 30) + pad(" /changed comment", 50); break; }
    }
    bool same_cards = a.cards == b.cards; c.label(same_cards ? "same cards" : "different cards"); c.nontrivial(!same_cards); if (c.describe) c.say_s(summary(a) + " change " + num(how) + " at card " + num(static_cast<long long>(i)));
    header_t x = read_at(c, header_bytes(a), 0), y = read_at(c, header_bytes(b), 0);
    switch (c.below(4)) { case 0: x.get_hdu_name(); break; case 1: y.value_of<int>("BITPIX"); break; case 2: x.contains_keyword("Q"); x.value_of<std::string>("NAXIS"); break; default: break; }
    PBT_EQ(x == y, same_cards, "equality of headers whose cards are " << (same_cards ? "the same" : "different") << " (change " << how << ")"); PBT_EQ(y == x, same_cards, "equality, the other way around");
    header_t z = x; PBT_CHECK(z == x && x == z, "a copy differs from the header");
}
PBT_PROP(written_reads_equal, 8000, 200000) {
    Hdu m = gen_any(c); if (c.describe) c.say_s(summary(m)); c.nontrivial(m.cards.size() > 6); header_t h = read_at(c, header_bytes(m), 0);
    if (c.flag()) h.get_hdu_name();
    std::string p = c.dir + "/w.hdr"; std::size_t before = c.below(3) * REC; { bio::fits_stream s; s.create_file(p); if (before) s.write(std::string(before, 'x')); h.write_header(s); }
    std::string w = read_file(p); PBT_CHECK(w == std::string(before, 'x') + header_bytes(m), "written header block differs (" << w.size() << " bytes, expected " << before + header_bytes(m).size() << ")");
    bio::fits_stream s; s.set_file(p); s.set_reading_pos(before); header_t r; r.read_header(s); PBT_CHECK(r == h, "a written header does not read back equal"); check_header(r, m);
}
// a keyword that occurs several times answers with its last card
PBT_PROP(repeated_keywords, 4000, 80000) {
    Hdu m = gen_any(c); std::size_t n = 1 + c.below(3), tail = 0; std::map<std::string, Val> last;
    for (std::size_t i = 0; i < n; i++) { std::string k = c.chance(1, 3) ? c.pick<std::string>({"GAIN", "Z-1"}) : !m.values.empty() ? std::next(m.values.begin(), static_cast<long>(c.below(m.values.size())))->first : "GAIN"; if (k[0] != 'Z' && k[0] != 'Y' && k != "GAIN") k = "GAIN"; Val v = gen_value(c); m.cards.push_back(card(k, v.text, v.comment)); m.values[k] = v; tail++; PBT_SAY(c, m.cards.back()); }
    c.nontrivial(); header_t h = read_at(c, header_bytes(m), 0); check_header(h, m);
}
// a BITPIX that FITS does not know (64 is left open: FITS has it, the library does not) or none at all is refused
PBT_PROP(unknown_bitpix, 2000, 40000) {
    Hdu m = gen_any(c); bool absent = c.chance(1, 5); std::string v = c.chance(1, 4) ? c.pick<std::string>({"T", "'8'", "'8       '", "8.5", "", "x"}) : num(c.chance(1, 2) ? c.range(-130, 130) : c.integer(-2147483647LL, 2147483647LL));
    if (v == "8" || v == "16" || v == "32" || v == "-32" || v == "-64" || v == "64" || v[0] == '\'') return;
    for (std::size_t i = 0; i < m.cards.size(); i++) if (m.cards[i].compare(0, 8, "BITPIX  ") == 0) { if (absent) m.cards.erase(m.cards.begin() + static_cast<long>(i)); else m.cards[i] = card("BITPIX", rjust(v, 20)); break; }
    PBT_SAY(c, "BITPIX " << (absent ? "missing" : v)); c.nontrivial(); PBT_CHECK(throws([&] { read_at(c, header_bytes(m), 0); }), "a header with BITPIX " << (absent ? "missing" : v) << " is accepted");
}
// neither SIMPLE nor XTENSION: no HDU name
PBT_PROP(no_name, 500, 5000) {
    Hdu m = gen_any(c); m.cards.erase(m.cards.begin()); header_t h = read_at(c, header_bytes(m), 0); c.nontrivial(); PBT_CHECK(throws([&] { h.get_hdu_name(); }), "a header without SIMPLE and XTENSION has the name " << h.get_hdu_name());
}
