// C23: damaged FITS input is refused or read in bounds, and always terminates.
#include "tables.hpp"
#include <new>
using namespace tables;
namespace pbt {
const char* const property_id = "C23";
const char* const property_rule = "well-formed files damaged by 1..6 edits (card values replaced by extreme, negative, textual or missing ones; cards removed, duplicated, exchanged; bytes changed, inserted, removed; truncation), truncations at every kind of place, and arbitrary bytes; opened in both modes, queried and written under AddressSanitizer with a memory and a CPU-time limit; only exceptions derived from std::exception may leave the library; non-trivial: the input is not well-formed";
}
// The files here have at most some ten kilobytes: no size they announce justifies a large allocation.
static const std::size_t cap = std::size_t(64) << 20; static std::size_t excess = 0;
void* operator new(std::size_t n) { if (n > cap) { excess = std::max(excess, n); throw std::bad_alloc(); } void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

template <class F> void quietly(F f) { try { f(); } catch (std::exception&) {} }   // anything else escapes to the engine
struct read_all { bio::binary_table& t; const std::string& name; std::size_t rows; template <class T> void operator()(tag<T>) { auto& v = t.template get_column<T>(name); for (std::size_t r = 0; r < rows; r++) { T x = v[static_cast<int>(r)]; std::string s = field<T>::enc(x); (void)s; } for (auto it = v.begin(); it != v.end(); ++it) { T x = *it; (void)x; } } };

static void query_header(header_t h) {
    quietly([&] { h.get_hdu_name(); }); quietly([&] { h.card_count(); }); quietly([&] { h.data_size(); }); quietly([&] { h.naxis(h.total_dimensions()); }); quietly([&] { h.naxis(1); });
    for (const char* k : {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "TFIELDS", "TFORM1", "TTYPE1", "COMMENT", "HISTORY", "END", "", "XTENSION"}) { quietly([&] { h.contains_keyword(k); }); quietly([&] { h.value_of<std::string>(k); }); quietly([&] { h.value_of<int>(k); }); quietly([&] { h.value_of<double>(k); }); quietly([&] { h.value_of<bool>(k); }); quietly([&] { h.value_of<std::size_t>(k); }); quietly([&] { h.value_of<std::complex<double>>(k); }); }
}
template <class H> void query_image(H& p) {
    query_header(p.get_header());
    auto q = [&](auto img) { std::size_t n = img.size(); if (n) { img.max(); img.min(); img.mean(); img.median(); img.std_dev(); std::size_t w = 0; quietly([&] { w = p.get_header().naxis(1); }); if (w && w <= n) { img(0, 0); img(0, w - 1); img(n / w - 1, w - 1); } } img.write_image(); };
    quietly([&] { p.template get_data<bio::bitpix::B8>(); }); quietly([&] { p.template get_data<bio::bitpix::B16>(); }); quietly([&] { p.template get_data<bio::bitpix::_B64>(); });   // what a program expects may not be what the file says
    switch (p.get_header().bitpix()) { case bio::bitpix::B8: q(p.template get_data<bio::bitpix::B8>()); break; case bio::bitpix::B16: q(p.template get_data<bio::bitpix::B16>()); break; case bio::bitpix::B32: q(p.template get_data<bio::bitpix::B32>()); break; case bio::bitpix::_B32: q(p.template get_data<bio::bitpix::_B32>()); break; case bio::bitpix::_B64: q(p.template get_data<bio::bitpix::_B64>()); break; default: PBT_FAIL("header with an unknown BITPIX was accepted"); }
}
static void query(Case& c, bio::binary_table& t) {
    query_header(t.get_header()); std::size_t rows = std::min<std::size_t>(t.get_data().size(), 200); bool scalar = c.flag();
    for (int i = 1; i <= 9; i++) quietly([&] {
        std::string n = t.get_header().value_of<std::string>("TTYPE" + num(i)); auto md = t.get_column_metadata(n); Col k; k.type = bio::binary_table::get_type(md.TFORM()); k.repeat = bio::binary_table::element_count(md.TFORM()); if (c.chance(1, 4)) { k.type = "LXBIJAEDCMP"[c.below(11)]; if (c.flag()) k.repeat = 1; } read_all r{t, n, rows}; with_type(k, scalar, r); });
}
static void query(Case&, bio::ascii_table& t) {
    query_header(t.get_header()); std::size_t rows = std::min<std::size_t>(t.get_data().size(), 200);
    for (int i = 1; i <= 9; i++) { std::string n; bool ok = false; quietly([&] { n = t.get_header().value_of<std::string>("TTYPE" + num(i)); ok = true; }); if (!ok) continue;
        quietly([&] { auto& v = t.get_column<double>(n); for (std::size_t r = 0; r < rows; r++) quietly([&] { double x = v[static_cast<int>(r)]; (void)x; }); }); }
}
// true: refused while opening
static bool open_and_query(Case& c, const std::string& path, bool entire);
static bool exercise(Case& c, const std::string& path, bool entire) {
    excess = 0; bool r = open_and_query(c, path, entire); PBT_CHECK(!excess, "a file of some kilobytes made the library ask for " << excess << " bytes of memory"); return r;
}
static bool open_and_query(Case& c, const std::string& path, bool entire) {
    try {
        auto x = bio::fits::open(path, entire ? bio::reading_options::read_entire_hdus : bio::reading_options::read_only_headers);
        std::size_t n = x.get_hdu_list().size(); PBT_CHECK(n < 100000, "more HDUs than the file has cards");
        for (std::size_t i = 0; i < n; i++) quietly([&] {
            auto& e = x[static_cast<int>(i)];
            if (auto* p = boost::get<bio::primary_hdu>(&e)) query_image(*p); else if (auto* b = boost::get<bio::binary_table>(&e)) query(c, *b); else if (auto* a = boost::get<bio::ascii_table>(&e)) query(c, *a); });
        x.get_control_block_info();
        quietly([&] { x.write_to(c.dir + "/out.fits"); });
    } catch (std::exception&) { return true; }
    return false;
}
static std::string nasty(Case& c) {
    switch (c.below(18)) {
    case 16: return std::to_string(std::uint64_t(1) << (20 + c.below(44))); case 17: return std::to_string((std::uint64_t(1) << (30 + c.below(34))) + c.below(9) - 4);
    case 0: return "0"; case 1: return "-1"; case 2: return num(c.range(-100, 100)); case 3: return "1"; case 4: return num(c.integer(0, std::numeric_limits<i64>::max())); case 5: return "18446744073709551615"; case 6: return "99999999999999999999999"; case 7: return "T"; case 8: return "'text'"; case 9: return ""; case 10: return "1.5"; case 11: return "'" + num(c.range(0, 100000)) + c.pick({'A', 'J', 'M', 'P', 'X', 'Z', 'L'}) + "'"; case 12: return "'" + std::string(1, c.pick({'A', 'F', 'E', 'I'})) + num(c.range(-3, 3000)) + "'"; case 13: return "'"; case 14: return "''"; default: return c.text_of(printable_set(), c.below(20));
    }
}
static std::string damage(Case& c, const std::vector<Hdu>& f0) {
    std::vector<Hdu> f = f0; std::size_t n = 1 + c.below(6);
    for (std::size_t i = 0; i < n; i++) {
        Hdu& h = f[c.below(f.size())]; if (h.cards.empty()) continue; std::size_t k = c.chance(1, 3) ? c.below(h.cards.size()) : c.below(std::min<std::size_t>(h.cards.size(), 12)); std::string key = trim(h.cards[k].substr(0, 8));
        switch (c.below(8)) {
        case 0: case 1: case 2: case 3: { std::string v = nasty(c); PBT_SAY(c, "  card " << key << " = " << v); h.cards[k] = pad(pad(key, 8) + "= " + v, 80).substr(0, 80); break; }
        case 4: PBT_SAY(c, "  card " << key << " removed"); h.cards.erase(h.cards.begin() + static_cast<long>(k)); break;
        case 5: { std::size_t j = c.below(h.cards.size()); PBT_SAY(c, "  cards " << k << "," << j << " exchanged"); std::swap(h.cards[k], h.cards[j]); break; }
        case 6: PBT_SAY(c, "  card " << key << " twice"); h.cards.insert(h.cards.begin() + static_cast<long>(k), h.cards[c.below(h.cards.size())]); break;
        default: { std::string x = c.flag() ? pad(c.text_of(key_set(), 8), 8) + "= " + nasty(c) : c.raw(80); PBT_SAY(c, "  card " << key << " replaced by " << pbt::printable(x)); h.cards[k] = pad(x, 80).substr(0, 80); }
        }
    }
    std::string b = bytes(f); std::size_t e = c.chance(1, 3) ? 1 + c.below(4) : 0;
    for (std::size_t i = 0; i < e && !b.empty(); i++) { std::size_t at = c.below(b.size()); switch (c.below(4)) { case 0: b[at] = static_cast<char>(c.below(256)); PBT_SAY(c, "  byte " << at); break; case 1: b.insert(at, c.raw(1 + c.below(5))); PBT_SAY(c, "  insertion at " << at); break; case 2: b.erase(at, 1 + c.below(200)); PBT_SAY(c, "  removal at " << at); break; default: b.resize(at); PBT_SAY(c, "  cut at " << at); break; } }
    return b;
}
PBT_PROP(damaged_files, 25000, 800000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 1500, 6)); std::size_t n = c.below(3); for (std::size_t i = 0; i < n; i++) f.push_back(c.flag() ? gen_binary(c, 4, 8) : c.flag() ? gen_image(c, 500) : gen_ascii(c, 4, 6)); describe(c, f);
    std::string b = damage(c, f); c.nontrivial(b != bytes(f)); std::string p = c.dir + "/d.fits"; write_file(p, b);
    bool r1 = exercise(c, p, true), r2 = exercise(c, p, false); c.label(r1 ? "refused" : "read"); c.label(r2 ? "headers refused" : "headers read");
}
PBT_PROP(truncated_files, 12000, 300000) {
    std::vector<Hdu> f = gen_file(c, 2); describe(c, f); std::string b = bytes(f);
    // a place inside a header before END is complete, or inside data
    std::vector<std::pair<std::size_t, std::size_t>> bad; std::size_t at = 0; for (auto& h : f) { std::size_t end_card = at + 80 * (h.cards.size() + 1); bad.push_back({at + 1, end_card - 1}); at += header_bytes(h).size(); if (!h.data.empty()) { bad.push_back({at, at + h.data.size() - 1}); at += data_bytes(h, ' ').size(); } }
    auto w = bad[c.below(bad.size())]; std::size_t cut = c.chance(1, 4) ? w.first : c.chance(1, 4) ? w.second : w.first + c.below(w.second - w.first + 1); PBT_SAY(c, "cut at " << cut << " of " << b.size()); c.nontrivial();
    std::string p = c.dir + "/t.fits"; write_file(p, b.substr(0, cut));
    PBT_CHECK(exercise(c, p, true), "a file that ends at byte " << cut << " of " << b.size() << ", inside a header or data, was accepted"); exercise(c, p, false);
}
// a file cut inside a header is refused in header-only mode too
PBT_PROP(truncated_headers, 4000, 100000) {
    std::vector<Hdu> f = gen_file(c, 2); std::string b = bytes(f); std::size_t k = c.below(f.size()), at = 0; for (std::size_t i = 0; i < k; i++) at += bytes(f[i]).size(); std::size_t cut = at + 1 + c.below(80 * (f[k].cards.size() + 1) - 1); PBT_SAY(c, "cut at " << cut << " in the header of HDU " << k); c.nontrivial();
    std::string p = c.dir + "/t.fits"; write_file(p, b.substr(0, cut)); PBT_CHECK(exercise(c, p, false), "header-only mode accepts a file that ends inside a header");
}
PBT_PROP(arbitrary_bytes, 8000, 300000) {
    std::string b; switch (c.below(4)) { case 0: b = c.raw(c.below(300)); break; case 1: { std::size_t n = c.below(60); for (std::size_t i = 0; i < n; i++) b += pad(c.pick<std::string>({"SIMPLE  =                    T", "XTENSION= 'BINTABLE'", "XTENSION= 'TABLE   '", "BITPIX  =                    8", "BITPIX  =                  -64", "NAXIS   =                    2", "NAXIS   =                    0", "NAXIS1  =                    3", "NAXIS2  =                    2", "TFIELDS =                    1", "TFORM1  = '3A'", "TFORM1  = 'A3'", "TBCOL1  =                    1", "PCOUNT  =                    0", "GCOUNT  =                    1", "END", "COMMENT", "", "TTYPE1  = 'c'", "NAXIS   = 999999999999"}), 80); if (c.flag()) b += pad("END", 80); b += std::string(c.below(6000), c.pick({' ', '\0', '1'})); break; } case 2: b = c.bulk(c.below(9000)); break; default: b = std::string(c.below(6000), c.pick({' ', '\0', 'E', '\xff', '=', '\n'})); }
    PBT_SAY(c, b.size() << " bytes: " << pbt::printable(b, 300)); c.nontrivial(!b.empty()); std::string p = c.dir + "/r.fits"; write_file(p, b); bool r = exercise(c, p, true); exercise(c, p, false); c.label(r ? "refused" : "read");
}

// An image or a table that announces more data than any file has is refused, whatever the product of its dimensions is modulo the size of a machine word.
PBT_PROP(announced_sizes, 6000, 150000) {
    int bp = c.pick({8, 16, 32, -32, -64}); std::size_t es = static_cast<std::size_t>(std::abs(bp)) / 8, kind = c.below(3); std::string d = c.raw(c.below(2) * 2880); std::vector<std::string> cards; std::size_t n = kind == 0 ? 1 + c.below(8) : 2; if (kind) { bp = 8; es = 1; }
    long double total = static_cast<long double>(es); std::vector<std::uint64_t> dims; for (std::size_t i = 0; i < n; i++) { std::uint64_t v = c.chance(2, 3) ? std::uint64_t(1) << c.below(64) : c.flag() ? 1 + c.below(9) : 1 + static_cast<std::uint64_t>(c.integer(0, std::numeric_limits<i64>::max() - 1)); dims.push_back(v); total *= static_cast<long double>(v); }
    if (kind == 0 && c.chance(1, 4)) { n = 1; dims = {(0 - std::uint64_t(2880) * (1 + c.below(3))) / es}; total = 1.844e19L; c.label("size that wraps around to the start of the file"); }
    if (total < 100000.L) { dims[0] = std::uint64_t(1) << 40; total = 1e9L; }
    if (kind == 0) cards.push_back(card("SIMPLE", "T")); else cards.push_back(card("XTENSION", kind == 1 ? "'BINTABLE'" : "'TABLE   '"));
    cards.push_back(card("BITPIX", num(bp))); cards.push_back(card("NAXIS", std::to_string(n))); for (std::size_t i = 0; i < n; i++) cards.push_back(card("NAXIS" + num(i + 1), std::to_string(dims[i])));
    if (kind) { cards.push_back(card("PCOUNT", "0")); cards.push_back(card("GCOUNT", "1")); cards.push_back(card("TFIELDS", "0")); }
    std::string b; if (kind) { Hdu p; p.cards = {card("SIMPLE", "T"), card("BITPIX", "8"), card("NAXIS", "0")}; b += bytes(p); } Hdu h; h.cards = cards; b += header_bytes(h) + d; for (auto& x : cards) PBT_SAY(c, trim(x)); PBT_SAY(c, d.size() << " bytes of data"); c.nontrivial(total > 1.8e19L); c.label(total > 1.8e19L ? "beyond a machine word" : "within a machine word");
    std::string p = c.dir + "/a.fits"; write_file(p, b); PBT_CHECK(exercise(c, p, true), "a file of " << b.size() << " bytes that announces more data than that was accepted"); exercise(c, p, false);
}
// Announced rows that are not in the data: rows of no bytes, and a third dimension of zero, next to a heap that is there
PBT_PROP(announced_rows, 4000, 100000) {
    bool bin = c.flag(); std::size_t how = c.below(3); std::uint64_t rows = c.chance(2, 3) ? std::uint64_t(1) << c.below(63) : 1 + c.below(100000000), width = how == 0 ? 0 : 1 + c.below(5); std::size_t pc = c.below(3) * 10, nf = c.below(4); std::vector<std::string> k{card("XTENSION", bin ? "'BINTABLE'" : "'TABLE   '"), card("BITPIX", "8"), card("NAXIS", how == 0 ? "2" : "3"), card("NAXIS1", std::to_string(width)), card("NAXIS2", std::to_string(rows))};
    if (how) k.push_back(card("NAXIS3", how == 1 ? "0" : "1")); if (how == 2) for (auto& x : k) if (x.compare(0, 7, "NAXIS2 ") == 0) { rows = std::uint64_t(1) << (20 + c.below(40)); x = card("NAXIS2", std::to_string(rows)); }
    k.push_back(card("PCOUNT", num(static_cast<long long>(pc)))); k.push_back(card("GCOUNT", "1")); k.push_back(card("TFIELDS", num(static_cast<long long>(nf)))); for (std::size_t i = 1; i <= nf; i++) { std::string n = num(static_cast<long long>(i)); k.push_back(card("TFORM" + n, bin ? c.pick<std::string>({"'0J'", "'0A'", "'0D'", "'1B'"}) : c.pick<std::string>({"'A1'", "'I5'", "'A0'"}))); k.push_back(card("TTYPE" + n, quote("c" + n))); if (!bin) k.push_back(card("TBCOL" + n, "1")); }
    Hdu p, h; p.cards = {card("SIMPLE", "T"), card("BITPIX", "8"), card("NAXIS", "0")}; h.cards = k; std::string b = bytes(p) + header_bytes(h); if (pc) b += std::string(REC, 'h'); for (auto& x : k) PBT_SAY(c, trim(x)); c.nontrivial(rows > 1000000 && pc); c.label(how == 0 ? "rows of no bytes" : how == 1 ? "no third dimension" : "more rows than data");
    std::string f = c.dir + "/a.fits"; write_file(f, b); bool refused = exercise(c, f, true); if (how == 2) PBT_CHECK(refused, "a file of " << b.size() << " bytes that announces " << rows << " rows was accepted"); exercise(c, f, false);
}
