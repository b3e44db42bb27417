// Independent model of FITS files: generator, serializer and parser.  Uses nothing of the code under test.
#pragma once
#include "pbt.hpp"

namespace fitsgen {
using pbt::Case;
using pbt::u64;
using pbt::i64;

const std::size_t REC = 2880;

struct Val {
    char kind = 's';            // i f s b  c(commentary)
    long long i = 0; double f = 0; std::string s; bool b = false; std::string text;   // text: as written in the card
    std::string comment;
};

struct Col {
    char type = 'A'; std::size_t repeat = 1; std::string tform, name, unit, disp, dim; bool has_unit = false, has_scale = false, has_zero = false, has_name = true, has_disp = false, has_dim = false;
    double scale = 1, zero = 0;
    std::size_t tbcol = 0;      // ASCII: 1-based column; binary: byte offset
    std::size_t width = 0;      // bytes
};

struct Hdu {
    enum Kind { PRIMARY, ASCII, BINARY, IMAGE, OTHER } kind = PRIMARY;
    int bitpix = 8; std::vector<std::size_t> naxis;
    std::vector<std::string> cards;                 // 80 columns each, without END
    std::map<std::string, Val> values;              // keyword -> value, for unique keywords
    std::string data;                               // exactly the data bytes, no fill
    std::string heap;                               // binary tables: the part of data behind the rows
    std::vector<Col> cols; std::size_t rows = 0;
    std::vector<std::vector<std::string>> cells;    // binary: raw bytes; ASCII: text as stored between blanks
    bool extend = false, has_extend = false, has_extname = false; std::string extname, xtension;
    std::string name() const { return kind == PRIMARY ? "primary_hdu" : xtension; }
};

inline std::string pad(std::string s, std::size_t n) { if (s.size() < n) s.append(n - s.size(), ' '); return s; }
inline std::string rjust(std::string s, std::size_t n) { if (s.size() < n) s.insert(0, n - s.size(), ' '); return s; }
inline std::string trim(const std::string& s) {
    std::size_t a = s.find_first_not_of(" \t\n\v\f\r"); if (a == std::string::npos) return "";
    std::size_t b = s.find_last_not_of(" \t\n\v\f\r"); return s.substr(a, b - a + 1);
}
inline std::string num(long long v) { return std::to_string(v); }
inline std::string quote(const std::string& s) { std::string o = "'"; for (char ch : s) { o += ch; if (ch == '\'') o += ch; } return o + "'"; }
inline std::string card(const std::string& key, const std::string& value, const std::string& comment = "") {
    std::string s = pad(key, 8) + "= " + value; if (!comment.empty()) s += " /" + comment; return pad(s, 80);
}

inline const std::string& printable_set() { static std::string s = [] { std::string t; for (int i = 32; i < 127; i++) t += static_cast<char>(i); return t; }(); return s; }
inline const std::string& key_set() { static std::string s = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"; return s; }

// text without surrounding blanks
inline std::string inner_text(Case& c, std::size_t max) {
    std::size_t n = c.size(max); std::string s;
    static const std::string spice = "/'  =TF,.:()";
    for (std::size_t i = 0; i < n; i++) s += c.below(4) == 0 ? spice[c.below(spice.size())] : printable_set()[(c.below(95) + 33) % 95];
    return trim(s);
}

inline std::string float_text(Case& c, double& out) {
    std::string t;
    switch (c.below(5)) {
    case 0: t = num(c.range(-9999, 9999)) + "." + num(c.range(0, 99999)); break;
    case 1: t = num(c.range(-9, 9)) + "." + num(c.range(0, 99999999)) + "E" + (c.flag() ? "+" : "-") + num(c.range(0, 30)); break;
    case 2: t = num(c.range(-9, 9)) + "." + num(c.range(0, 999999)) + "D" + (c.flag() ? "+" : "-") + num(c.range(0, 30)); break;
    case 3: t = "-0." + num(c.range(0, 999999999)); break;
    default: t = num(c.range(0, 99)) + "."; break;
    }
    if (c.chance(1, 6)) t = c.pick<std::string>({"+1.5", ".5", "-.25", "1E5", "1D-5", "+.5E+2", "-7.E3", "00.5", "-0.0", "1.0E+00", "0.E0", "1.7976931348623157E+308", "2.2250738585072014D-308", "4.9E-324", "123456789.123456789"});
    std::string e = t; for (char& ch : e) if (ch == 'D') ch = 'E';
    out = std::strtod(e.c_str(), 0);
    return t;
}

inline Val gen_value(Case& c) {
    Val v;
    switch (c.below(5)) {
    case 0: v.kind = 'i'; v.i = c.integer(-2147483647LL, 2147483647LL); v.text = num(v.i); if (c.chance(1, 8)) v.text = v.i < 0 ? "-0" + v.text.substr(1) : c.flag() ? "+" + v.text : "00" + v.text; break;
    case 1: v.kind = 'i'; v.i = c.integer(std::numeric_limits<i64>::min() / 2, std::numeric_limits<i64>::max() / 2); v.text = num(v.i); break;
    case 2: v.kind = 'f'; v.text = float_text(c, v.f); break;
    case 3: v.kind = 's'; v.s = inner_text(c, 40); if (quote(v.s).size() > 68) v.s = "x"; v.text = quote(v.s); if (v.text.size() < 10 && c.flag()) v.text = "'" + pad(v.text.substr(1, v.text.size() - 2), 8) + "'"; break;
    default: v.kind = 'b'; v.b = c.flag(); v.text = v.b ? "T" : "F"; break;
    }
    if (v.kind != 's' && c.below(4) != 3) v.text = rjust(v.text, 20);   // fixed format
    if (c.below(3) == 0 && v.text.size() < 60) v.comment = inner_text(c, 66 - v.text.size());
    return v;
}

inline void put(Hdu& h, const std::string& key, const Val& v) { h.cards.push_back(card(key, v.text, v.comment)); h.values[key] = v; }
inline void put_i(Hdu& h, const std::string& key, long long i, const std::string& comment = "") { Val v; v.kind = 'i'; v.i = i; v.text = rjust(num(i), 20); v.comment = comment; put(h, key, v); }
inline void put_b(Hdu& h, const std::string& key, bool b) { Val v; v.kind = 'b'; v.b = b; v.text = rjust(b ? "T" : "F", 20); put(h, key, v); }
inline void put_s(Hdu& h, const std::string& key, const std::string& s, const std::string& comment = "") { Val v; v.kind = 's'; v.s = s; std::string q = quote(s); v.text = q.size() < 10 ? "'" + pad(q.substr(1, q.size() - 2), 8) + "'" : q; v.comment = comment; put(h, key, v); }

// keywords without a meaning for the reader that begin like, or are the beginning of, those that have one
inline std::string near_key(Case& c) {
    return c.pick<std::string>({"ENDTIME", "END_OBS", "END1", "EN", "ENDENDEN", "SIMPLE2", "SIMPL", "XTENSIO", "BITPIX2", "BITPI", "NAXES", "NAXIS0", "NAXISA", "NAXIS99", "NAXIS01", "EXTENDED", "EXTEN", "EXTVER", "EXTLEVEL", "EXTNAM", "EXTNAMES",
        "PCOUNTS", "PCOUN", "GCOUNT2", "TFIELDS1", "TFIELD", "TFORM", "TFORM0", "TFORM01", "TFORM999", "TTYPE", "TTYPE0", "TTYPE999", "TBCOL", "TBCOL0", "TUNIT", "TUNIT0", "TSCAL", "TSCAL0", "TZERO", "TZERO0", "BSCALE", "BZERO", "BLANK", "DATE-OBS", "OBJECT", "HISTOR", "COMMEN", "COMM", "T", "F"}).substr(0, 8);
}
// comments on the cards that describe the HDU
inline void mandatory_comments(Case& c, Hdu& h) {
    if (!c.chance(1, 3)) return;
    c.label("comments on structural cards"); std::string t = c.flag() ? c.pick<std::string>({" array data type", " number of bits per data pixel", " length of data axis 1", " 2880", " '8'", " = 16", "/ T / F", " END", "COMMENT"}) : inner_text(c, 30); if (t.empty()) return;
    for (auto& k : h.cards) if (k.compare(8, 2, "= ") == 0) { std::string v = k; while (v.back() == ' ') v.pop_back(); if (v.size() + 3 + t.size() <= 80 && v.find(" /") == std::string::npos && c.flag()) k = pad(v + (v.size() < 30 ? std::string(30 - v.size(), ' ') : "") + " /" + t, 80); if (k.size() > 80) k = pad(v, 80); }
}
// random additional cards: keywords that begin with Z or Y, and some of near_key()
inline void extra_cards(Case& c, Hdu& h, std::size_t max) {
    mandatory_comments(c, h);
    // header of exactly k records: cards + END == 36 k
    bool exact = c.chance(1, 3);
    std::size_t want;
    if (exact) { std::size_t tot = h.cards.size() + 1; std::size_t k = (tot + 35) / 36 + c.below(2); want = 36 * k - tot; c.label("header fills its records exactly"); }
    else want = c.size(max);
    for (std::size_t i = 0; i < want; i++) {
        switch (c.below(6)) {
        case 0: h.cards.push_back(pad(pad(c.flag() ? "COMMENT" : "HISTORY", 9) + inner_text(c, 60), 80)); break;
        case 1: h.cards.push_back(pad(c.flag() ? "" : std::string(10, ' ') + inner_text(c, 60), 80)); break;
        default: {
            std::string k = std::string(1, c.flag() ? 'Z' : 'Y') + c.text_of(key_set(), c.below(5)) + num(static_cast<long long>(i) % 100);
            if (c.chance(1, 5)) k = near_key(c);
            if (h.values.count(k)) { h.cards.push_back(pad("COMMENT", 80)); break; }
            put(h, k, gen_value(c));
        } }
    }
}

inline std::size_t elem(int bitpix) { return static_cast<std::size_t>(bitpix < 0 ? -bitpix : bitpix) / 8; }

// bytes with a choice of distributions: uniform, white space and control heavy, text
inline std::string payload(Case& c, std::size_t n) {
    if (n == 0) return "";
    std::string s = c.bulk(n);
    switch (c.below(4)) {
    case 0: { static const char sp[] = {' ', '\t', '\n', '\r', 0, '\x0b', '\x0c', 'T', 'F', '\xff', '\x80', '\x7f', 1, '0', 'E', 'N', 'D'};
        for (char& ch : s) ch = sp[static_cast<unsigned char>(ch) % sizeof sp]; c.label("payload of white space and control bytes"); break; }
    case 1: for (char& ch : s) ch = static_cast<char>(32 + static_cast<unsigned char>(ch) % 95); break;
    default: break;
    }
    return s;
}

// dimensions for about `bytes` bytes of data; a third of the cases fill their last record exactly
inline void gen_dims(Case& c, Hdu& h, std::size_t max_bytes, std::size_t max_dim = 4) {
    std::size_t e = elem(h.bitpix); std::size_t nd = c.below(max_dim + 1), side = 40;
    h.naxis.clear();
    if (c.chance(1, 30)) { max_bytes *= 24; side = 3000; c.label("large array"); }
    if (c.chance(1, 40)) { nd = 5 + c.below(12); side = 4; c.label("many dimensions"); }
    if (nd && c.chance(1, 4)) {      // exact record multiple
        std::size_t total = REC / e * (1 + c.below(2)); c.label("data fills its records exactly");
        for (std::size_t i = 0; i + 1 < nd; i++) { std::vector<std::size_t> d; for (std::size_t k : {1, 2, 3, 4, 5, 6, 8, 9, 10, 12}) if (total % k == 0) d.push_back(k); std::size_t k = d[c.below(d.size())]; h.naxis.push_back(k); total /= k; }
        h.naxis.insert(h.naxis.begin() + c.below(h.naxis.size() + 1), total);
    } else {
        std::size_t left = std::max<std::size_t>(1, max_bytes / e);
        for (std::size_t i = 0; i < nd; i++) {
            std::size_t k = c.chance(1, 12) ? 0 : 1 + c.below(std::min<std::size_t>(left, nd == 1 ? left : side));
            h.naxis.push_back(k); if (k) left = std::max<std::size_t>(1, left / k);
        }
    }
}
inline std::size_t product(const std::vector<std::size_t>& v) { if (v.empty()) return 0; std::size_t p = 1; for (auto x : v) p *= x; return p; }

inline void axes_cards(Hdu& h) {
    put_i(h, "BITPIX", h.bitpix); put_i(h, "NAXIS", static_cast<long long>(h.naxis.size()));
    for (std::size_t i = 0; i < h.naxis.size(); i++) put_i(h, "NAXIS" + num(static_cast<long long>(i) + 1), static_cast<long long>(h.naxis[i]));
}

inline Hdu gen_primary(Case& c, std::size_t max_bytes = 6000, std::size_t max_cards = 45, bool force_data = false) {
    Hdu h; h.kind = Hdu::PRIMARY; h.bitpix = c.pick({8, 16, 32, -32, -64});
    gen_dims(c, h, max_bytes);
    if (force_data && product(h.naxis) == 0) { h.naxis = {1 + c.below(7), 1 + c.below(7)}; }
    put_b(h, "SIMPLE", !c.chance(1, 6)); axes_cards(h);
    h.has_extend = !c.chance(1, 4); h.extend = h.has_extend && c.flag();
    if (h.has_extend) put_b(h, "EXTEND", h.extend);
    extra_cards(c, h, max_cards);
    h.data = payload(c, product(h.naxis) * elem(h.bitpix));
    return h;
}

inline std::string col_name(Case& c, std::size_t i) {
    static const std::string a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789 -/";
    static const std::string stem = "column of the measured quantity in the photometric band number";
    if (c.chance(1, 5)) return stem.substr(0, 8 + c.below(4) * 18) + "." + num(static_cast<long long>(i));   // families of names that share a long beginning
    if (c.chance(1, 8)) return c.pick<std::string>({"NAXIS2", "TFORM1", "TTYPE1", "XTENSION", "BITPIX", "END", "COMMENT", "SIMPLE", "EXTNAME", "T", "F", "1", "0", "-", "x  y", "O'Neill", "''", "=", "a=b/c", "/", "RA", "ra", "RA_ERR", "flux (Jy)", "#", "1.5E3"});
    return trim("c" + c.text_of(a, c.below(7))) + (i < 10 ? "" : ".") + num(static_cast<long long>(i));
}

// TSCALn and TZEROn are independent of each other
inline void scale_cards(Case& c, Hdu& h, Col& k, const std::string& n) {
    u64 w = c.below(8);
    if (w == 5 || w == 7) { k.has_scale = true; Val v; v.kind = 'f'; v.text = rjust(float_text(c, v.f), 20); k.scale = v.f; put(h, "TSCAL" + n, v); }
    if (w == 6 || w == 7) { k.has_zero = true; Val v; v.kind = 'f'; v.text = rjust(float_text(c, v.f), 20); k.zero = v.f; put(h, "TZERO" + n, v); }
}
// FITS fixes the place of the mandatory cards only: the cards behind TFIELDS come in any order
inline void shuffle_cards(Case& c, Hdu& h) {
    if (!c.chance(1, 3)) return;
    std::size_t a = 0; while (a < h.cards.size() && h.cards[a].compare(0, 8, "TFIELDS ") != 0) a++;
    pbt::Rng r(c.upto(~u64(0))); for (std::size_t i = h.cards.size(); i > a + 2; i--) std::swap(h.cards[i - 1], h.cards[a + 1 + r.next() % (i - a - 1)]);
    c.label("cards in another order");
}
// every table with narrow rows is a long one; every table has hundreds of columns
inline bool& long_tables() { static bool b = false; return b; }
inline bool& wide_tables() { static bool b = false; return b; }
struct Large { explicit Large(Case& c) { (c.flag() ? long_tables() : wide_tables()) = true; } ~Large() { long_tables() = wide_tables() = false; } };
inline std::size_t many_columns(Case& c) { c.label("hundreds of columns"); return c.pick<std::size_t>({250, 510, 900}) + c.below(20); }
// names that differ in the case of their letters only
inline void case_variants(Case& c, Hdu& h) {
    { std::set<std::string> seen; for (std::size_t i = 0; i < h.cols.size(); i++) if (!seen.insert(h.cols[i].name).second) { h.cols[i].name += "~" + num(static_cast<long long>(i)); seen.insert(h.cols[i].name); } }
    if (h.cols.size() < 2 || !c.chance(1, 5)) return;
    std::size_t i = 1 + c.below(h.cols.size() - 1); std::string n = h.cols[c.below(i)].name; bool up = c.flag();
    for (std::size_t j = 0; j < n.size(); j++) { char& ch = n[j]; if (ch >= 'a' && ch <= 'z' && (up || c.flag())) ch = static_cast<char>(ch - 32); else if (ch >= 'A' && ch <= 'Z' && !up) ch = static_cast<char>(ch + 32); }
    for (auto& k : h.cols) if (k.name == n) return;
    h.cols[i].name = n; c.label("names that differ in case only");
}
// columns without the optional TTYPEn; only where columns are not looked up by name
inline bool& allow_unnamed() { static bool b = false; return b; }

inline std::size_t bin_size(char t) { switch (t) { case 'I': return 2; case 'J': case 'E': return 4; case 'D': case 'C': case 'P': return 8; case 'M': return 16; default: return 1; } }

inline Hdu gen_binary(Case& c, std::size_t max_cols = 8, std::size_t max_rows = 40, const std::string& types = "LXBIJAEDCMP", bool with_heap = false) {
    Hdu h; h.kind = Hdu::BINARY; h.xtension = "BINTABLE"; h.bitpix = 8;
    std::size_t nc = 1 + c.below(max_cols); std::size_t off = 0;
    if (c.chance(1, 40)) { nc = c.chance(1, 4) ? 95 + c.below(25) : 9 + c.below(30); c.label("many columns"); }
    if (wide_tables()) nc = many_columns(c);
    for (std::size_t i = 0; i < nc; i++) {
        Col k; k.type = types[c.below(types.size())];
        bool implicit = c.chance(1, 4); k.repeat = implicit ? 1 : c.chance(1, 12) ? 0 : 1 + c.size(9); if (!implicit && c.chance(1, 60)) { k.repeat = 10 + c.below(600); c.label("large repeat count"); }
        k.tform = implicit ? std::string(1, k.type) : num(static_cast<long long>(k.repeat)) + k.type;
        if (k.type == 'P' && c.flag()) k.tform += std::string(1, c.pick({'L', 'B', 'I', 'J', 'A', 'E', 'D'})) + (c.flag() ? "(" + num(c.range(0, 200)) + ")" : std::string());
        if (k.type == 'A' && c.chance(1, 6)) k.tform += num(c.range(1, 30));
        k.width = k.type == 'X' ? (k.repeat + 7) / 8 : k.repeat * bin_size(k.type);
        k.tbcol = off; off += k.width; k.name = col_name(c, i); h.cols.push_back(k);
    }
    case_variants(c, h);
    if (off == 0) { Col& k = h.cols[0]; k.type = 'J'; k.repeat = 1; k.tform = "J"; k.width = 4; off = 4; std::size_t o = 0; for (auto& q : h.cols) { q.tbcol = o; o += q.width; } }
    h.rows = c.size(max_rows);
    if (c.chance(1, 50)) { h.rows = std::min<std::size_t>(max_rows + 1 + c.below(1200), 1 + 120000 / off); c.label("many rows"); if (off <= 4 && c.chance(1, 8)) { h.rows = c.pick({32766, 65534}) + c.below(6); c.label("more rows than 16 bits count"); } }
    else if (c.chance(1, 5)) { // fill records exactly when possible
        for (std::size_t r = 1; r <= 720; r++) if (r * off % REC == 0) { if (r * off <= 4 * REC) { h.rows = r; c.label("table fills its records exactly"); } break; }
    }
    if (long_tables()) { h.rows = std::min<std::size_t>(c.pick({250, 32760, 65530}) + c.below(20), 1 + 500000 / off); c.label(h.rows > 65535, "more rows than 16 bits count"); }
    if (wide_tables()) h.rows = std::min<std::size_t>(h.rows, 3);
    h.naxis = {off, h.rows};
    std::size_t heap = with_heap && c.chance(1, 3) ? (c.chance(1, 4) ? (REC - off * h.rows % REC) % REC : c.size(4000)) : 0; c.label(heap > 0, "heap");
    put_s(h, "XTENSION", "BINTABLE", "binary table extension"); axes_cards(h); put_i(h, "PCOUNT", static_cast<long long>(heap)); put_i(h, "GCOUNT", 1); put_i(h, "TFIELDS", static_cast<long long>(nc));
    h.has_extname = c.flag(); if (h.has_extname) { h.extname = "E" + inner_text(c, 12); put_s(h, "EXTNAME", h.extname); }
    for (std::size_t i = 0; i < nc; i++) {
        Col& k = h.cols[i]; std::string n = num(static_cast<long long>(i) + 1);
        put_s(h, "TFORM" + n, k.tform); if (allow_unnamed() && c.chance(1, 8)) k.has_name = false; else put_s(h, "TTYPE" + n, k.name, c.flag() && k.name.size() < 40 ? "label for field" : "");
        if (c.chance(1, 3)) { k.has_unit = true; k.unit = c.flag() ? c.pick<std::string>({"m/s", "deg", "Jy/beam", "erg s-1", "'", "T", "1", "10**-7 erg/s/cm**2/Angstrom"}) : "u" + inner_text(c, 20); put_s(h, "TUNIT" + n, k.unit); }
        scale_cards(c, h, k, n);
        if (c.chance(1, 5)) { k.has_disp = true; k.disp = c.pick<std::string>({"I6", "F10.4", "E15.7E3"}); put_s(h, "TDISP" + n, k.disp); }
        if (c.chance(1, 6)) { k.has_dim = true; k.dim = "(" + num(static_cast<long long>(k.repeat)) + ",1)"; put_s(h, "TDIM" + n, k.dim); }
    }
    extra_cards(c, h, 25); shuffle_cards(c, h);
    h.data = payload(c, off * h.rows);
    for (std::size_t r = 0; r < h.rows; r++) for (auto& k : h.cols) if (k.type == 'L') for (std::size_t j = 0; j < k.width; j++) { char& ch = h.data[r * off + k.tbcol + j]; ch = "TF\0"[static_cast<unsigned char>(ch) % 3]; }
    for (std::size_t r = 0; r < h.rows; r++) { h.cells.emplace_back(); for (auto& k : h.cols) h.cells.back().push_back(h.data.substr(r * off + k.tbcol, k.width)); }
    if (heap) { h.heap = payload(c, heap); h.data += h.heap; }
    return h;
}

inline std::string ascii_cell(Case& c, const Col& k, char t) {
    std::string s;
    switch (t) {
    case 'I': { long long lim = 1; for (std::size_t i = 0; i < k.width - 1 && i < 15; i++) lim *= 10; s = num(c.range(-(lim / 10 - (lim > 1)), lim - 1)); break; }
    case 'F': { s = num(c.range(-99, 99)) + "." + num(c.range(0, 9999)); break; }
    case 'E': { s = num(c.range(-9, 9)) + "." + num(c.range(0, 999)) + "E" + (c.flag() ? "+" : "-") + num(c.range(10, 20)); break; }
    case 'D': { s = num(c.range(-9, 9)) + "." + num(c.range(0, 999999)) + "D" + (c.flag() ? "+" : "-") + num(c.range(10, 30)); break; }
    default: s = inner_text(c, k.width); break;
    }
    if (t != 'A' && c.chance(1, 6)) {       // other spellings: a plus sign, leading zeros, no digits before or behind the point, no point
        std::string d = num(c.range(0, 999)); switch (c.below(t == 'I' ? 2 : 6)) { case 0: if (s[0] != '-') s = "+" + s; break; case 1: s = s[0] == '-' ? "-0" + s.substr(1) : "00" + s; break; case 2: s = "." + d; break; case 3: s = "-" + d + "."; break; case 4: s = d + (t == 'F' ? "" : std::string(1, t) + "5"); break; default: s = "-." + d + (t == 'F' ? "" : std::string(1, t) + "-05"); break; }
        if (s.size() > k.width) s = "7"; }
    if (s.size() > k.width) s = s.substr(0, k.width);
    return trim(s);
}

inline Hdu gen_ascii(Case& c, std::size_t max_cols = 6, std::size_t max_rows = 20) {
    Hdu h; h.kind = Hdu::ASCII; h.xtension = "TABLE"; h.bitpix = 8;
    std::size_t nc = 1 + c.below(max_cols); std::size_t pos = 1;
    if (c.chance(1, 40)) { nc = c.chance(1, 4) ? 95 + c.below(25) : 9 + c.below(30); c.label("many columns"); }
    if (wide_tables()) nc = many_columns(c);
    if (long_tables()) nc = 1;
    for (std::size_t i = 0; i < nc; i++) {
        Col k; k.type = "AIFED"[c.below(long_tables() ? 2 : 5)];
        switch (k.type) {
        case 'A': k.width = 1 + c.size(20); if (c.chance(1, 60)) { k.width = 30 + c.below(400); c.label("wide column"); } k.tform = "A" + num(static_cast<long long>(k.width)); break;
        case 'I': k.width = 2 + c.below(12); k.tform = "I" + num(static_cast<long long>(k.width)); break;
        case 'F': k.width = 8 + c.below(c.chance(1, 8) ? 30 : 8); k.tform = "F" + num(static_cast<long long>(k.width)) + "." + num(c.chance(1, 3) ? c.range(0, 12) : 4); break;
        case 'E': k.width = 10 + c.below(c.chance(1, 8) ? 30 : 8); k.tform = "E" + num(static_cast<long long>(k.width)) + "." + num(c.chance(1, 3) ? c.range(0, 12) : 3); break;
        default: k.width = 13 + c.below(c.chance(1, 8) ? 30 : 8); k.tform = "D" + num(static_cast<long long>(k.width)) + "." + num(c.chance(1, 3) ? c.range(0, 17) : 6); break;
        }
        k.name = col_name(c, i); h.cols.push_back(k);
    }
    std::vector<std::size_t> order; for (std::size_t i = 0; i < nc; i++) order.push_back(i);
    if (nc > 1 && c.chance(1, 4)) { for (std::size_t i = nc; i > 1; i--) std::swap(order[i - 1], order[c.below(i)]); c.label("columns stored in another order"); }    // TBCOLn need not increase
    for (std::size_t i : order) { if (c.chance(1, 2)) pos += c.below(4); h.cols[i].tbcol = pos; pos += h.cols[i].width; }
    case_variants(c, h);
    std::size_t w = pos - 1 + (c.chance(1, 3) ? c.below(5) : 0);
    h.rows = c.size(max_rows); if (c.chance(1, 50)) { h.rows = std::min<std::size_t>(max_rows + 1 + c.below(1200), 1 + 120000 / w); c.label("many rows"); } else if (c.chance(1, 5)) { for (std::size_t r = 1; r <= 720; r++) if (r * w % REC == 0) { if (r * w <= 3 * REC) { h.rows = r; c.label("table fills its records exactly"); } break; } }
    if (long_tables()) { h.rows = std::min<std::size_t>(c.pick({250, 32760, 65530}) + c.below(20), 1 + 700000 / w); c.label(h.rows > 65535, "more rows than 16 bits count"); }
    if (wide_tables()) h.rows = std::min<std::size_t>(h.rows, 3);
    h.naxis = {w, h.rows};
    put_s(h, "XTENSION", "TABLE"); axes_cards(h); put_i(h, "PCOUNT", 0); put_i(h, "GCOUNT", 1); put_i(h, "TFIELDS", static_cast<long long>(nc));
    h.has_extname = c.flag(); if (h.has_extname) { h.extname = "E" + inner_text(c, 12); put_s(h, "EXTNAME", h.extname); }
    for (std::size_t i = 0; i < nc; i++) {
        Col& k = h.cols[i]; std::string n = num(static_cast<long long>(i) + 1);
        put_i(h, "TBCOL" + n, static_cast<long long>(k.tbcol)); put_s(h, "TFORM" + n, k.tform); if (allow_unnamed() && c.chance(1, 8)) k.has_name = false; else put_s(h, "TTYPE" + n, k.name);
        if (c.chance(1, 3)) { k.has_unit = true; k.unit = c.flag() ? c.pick<std::string>({"m/s", "deg", "Jy/beam", "erg s-1", "'", "T", "1", "10**-7 erg/s/cm**2/Angstrom"}) : "u" + inner_text(c, 20); put_s(h, "TUNIT" + n, k.unit); }
        scale_cards(c, h, k, n);
    }
    extra_cards(c, h, 25); shuffle_cards(c, h);
    // many rows: reuse a few generated ones, so that the tape stays short
    std::vector<std::vector<std::string>> pool; std::size_t np = std::min<std::size_t>(h.rows, 6);
    for (std::size_t r = 0; r < np; r++) { pool.emplace_back(); for (auto& k : h.cols) pool.back().push_back(ascii_cell(c, k, k.type)); }
    pbt::Rng mixr(c.upto(~u64(0)));
    bool left = c.flag();
    for (std::size_t r = 0; r < h.rows; r++) {
        std::string row(w, ' '); h.cells.emplace_back();
        for (std::size_t i = 0; i < nc; i++) { const std::string& t = pool[r < np ? r : mixr.next() % np][i]; h.cells.back().push_back(t); std::size_t at = h.cols[i].tbcol - 1 + (left && h.cols[i].type == 'A' ? 0 : h.cols[i].width - t.size()); row.replace(at, t.size(), t); }
        h.data += row;
    }
    return h;
}

inline Hdu gen_image(Case& c, std::size_t max_bytes = 4000) {
    Hdu h; h.kind = Hdu::IMAGE; h.xtension = "IMAGE"; h.bitpix = c.pick({8, 16, 32, -32, -64}); gen_dims(c, h, max_bytes);
    put_s(h, "XTENSION", "IMAGE"); axes_cards(h); put_i(h, "PCOUNT", 0); put_i(h, "GCOUNT", 1);
    h.has_extname = c.flag(); if (h.has_extname) { h.extname = "E" + inner_text(c, 12); put_s(h, "EXTNAME", h.extname); }
    extra_cards(c, h, 20); h.data = payload(c, product(h.naxis) * elem(h.bitpix)); return h;
}

inline std::string header_bytes(const Hdu& h) {
    std::string s; for (auto& k : h.cards) s += k; s += pad("END", 80);
    s.append((REC - s.size() % REC) % REC, ' '); return s;
}
inline std::string data_bytes(const Hdu& h, char fill) { std::string s = h.data; s.append((REC - s.size() % REC) % REC, fill); return s; }
inline char fill_of(const Hdu& h) { return h.kind == Hdu::ASCII ? ' ' : '\0'; }
inline std::string bytes(const Hdu& h) { return header_bytes(h) + data_bytes(h, fill_of(h)); }
inline std::string bytes(const std::vector<Hdu>& v) { std::string s; for (auto& h : v) s += bytes(h); return s; }

inline void write_file(const std::string& path, const std::string& b) { std::ofstream o(path, std::ios::binary | std::ios::trunc); o.write(b.data(), static_cast<std::streamsize>(b.size())); }
inline std::string read_file(const std::string& path) { std::ifstream i(path, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

inline std::string summary(const Hdu& h) {
    std::ostringstream o; o << h.name() << " BITPIX=" << h.bitpix << " NAXIS=("; for (std::size_t i = 0; i < h.naxis.size(); i++) o << (i ? "," : "") << h.naxis[i];
    o << ") cards=" << h.cards.size() << " data=" << h.data.size() << "B";
    if (!h.cols.empty()) { o << " cols:"; for (auto& k : h.cols) o << ' ' << k.name << ':' << k.tform << '@' << k.tbcol; }
    return o.str();
}

// ---- independent parser of written files -----------------------------------------------------------
struct Parsed { std::vector<std::string> cards; std::map<std::string, std::string> raw; std::string data, fill; std::vector<std::size_t> naxis; int bitpix = 0; std::size_t header_at = 0, data_at = 0; };

inline long long raw_int(const std::string& v) { return std::atoll(trim(v).c_str()); }
inline std::string raw_value(const std::string& cd) {   // value field of a card, comment removed
    std::string v = cd.substr(10); bool q = false; for (std::size_t i = 0; i < v.size(); i++) { if (v[i] == '\'') q = !q; else if (v[i] == '/' && !q) return trim(v.substr(0, i)); } return trim(v);
}
inline std::string raw_string(const std::string& v) { std::string o; if (v.empty() || v[0] != '\'') return v; for (std::size_t i = 1; i < v.size(); i++) { if (v[i] == '\'') { if (i + 1 < v.size() && v[i + 1] == '\'') i++; else break; } o += v[i]; } return trim(o); }

// throws pbt::Fail when the bytes are not a well formed sequence of HDUs
inline std::vector<Parsed> parse(const std::string& b) {
    std::vector<Parsed> out; PBT_CHECK(b.size() % REC == 0, "file length " << b.size() << " is not a multiple of 2880");
    std::size_t p = 0;
    while (p < b.size()) {
        Parsed h; h.header_at = p; bool end = false;
        while (!end) {
            PBT_CHECK(p + 80 <= b.size(), "file ends inside a header (HDU " << out.size() << ")");
            std::string cd = b.substr(p, 80); p += 80;
            for (char ch : cd) PBT_CHECK(ch >= 32 && ch < 127, "card with a non-text byte: " << pbt::printable(cd));
            if (trim(cd.substr(0, 8)) == "END" && cd.substr(0, 3) == "END") { end = true; PBT_CHECK(trim(cd) == "END", "END card with content: " << cd); break; }
            h.cards.push_back(cd);
            std::string key = trim(cd.substr(0, 8));
            if (cd.compare(8, 2, "= ") == 0 && key != "COMMENT" && key != "HISTORY" && !h.raw.count(key)) h.raw[key] = raw_value(cd);
        }
        std::size_t hend = (p + REC - 1) / REC * REC; PBT_CHECK(hend <= b.size(), "header is not padded");
        for (std::size_t i = p; i < hend; i++) PBT_CHECK(b[i] == ' ', "header padding is not blank");
        p = hend; h.data_at = p;
        PBT_CHECK(h.cards.size() >= 3, "header with " << h.cards.size() << " cards");
        std::string k0 = trim(h.cards[0].substr(0, 8)); PBT_CHECK(out.empty() ? k0 == "SIMPLE" || k0 == "XTENSION" : k0 == "XTENSION" || k0 == "SIMPLE", "first card of HDU " << out.size() << " is " << pbt::printable(h.cards[0]));
        PBT_CHECK(h.raw.count("BITPIX") && h.raw.count("NAXIS"), "BITPIX or NAXIS missing");
        h.bitpix = static_cast<int>(raw_int(h.raw["BITPIX"])); long long n = raw_int(h.raw["NAXIS"]);
        for (long long i = 1; i <= n; i++) h.naxis.push_back(static_cast<std::size_t>(raw_int(h.raw["NAXIS" + num(i)])));
        std::size_t len = product(h.naxis) * elem(h.bitpix); if (k0 == "XTENSION" && h.raw.count("PCOUNT") && n > 0) len += static_cast<std::size_t>(raw_int(h.raw["PCOUNT"])) * elem(h.bitpix); PBT_CHECK(p + len <= b.size(), "data of HDU " << out.size() << " is " << len << " bytes long, but the file ends before");
        h.data = b.substr(p, len); std::size_t dend = (p + len + REC - 1) / REC * REC; h.fill = b.substr(p + len, dend - p - len); p = dend;
        out.push_back(h);
    }
    return out;
}
} // namespace fitsgen
