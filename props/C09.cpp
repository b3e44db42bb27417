// C09: binary tables decode every field to the value the FITS format defines.
#include "tables.hpp"
using namespace tables;
namespace pbt {
const char* const property_id = "C09";
const char* const property_rule = "binary tables of 1..8 columns of all types L X B I J A E D C M P with repeat counts 0..10 (explicit or implicit) and 0..40 (or record-filling) rows of random, white-space-heavy and text payload, read from a file or built from header and buffer; every cell and every scalar and vector view is compared with an independent big-endian decoder; non-trivial: at least one row";
}
namespace ba = boost::astronomy;
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

struct view_check { bio::binary_table& t; const Hdu& m; std::size_t k;
    template <class T> void operator()(tag<T>) {
        const Col& q = m.cols[k]; auto& v = t.template get_column<T>(q.name); PBT_EQ(v.get_row_count(), m.rows, "rows of " << q.name); PBT_EQ(v.get_column_number(), static_cast<int>(k + 1), "number of column " << q.name); check_meta(v, q, k, false);
        for (std::size_t r = 0; r < m.rows; r++) { if (m.rows > 60 && r > 20 && r < m.rows - 20 && r % 53 && (r & (r - 1)) && ((r + 1) & r)) continue;
            T got = v[static_cast<int>(r)]; std::string e = field<T>::enc(got); PBT_CHECK(same_field(q.type, e, m.cells[r][k]), "row " << r << " of " << q.name << ":" << q.tform << (field<T>::vec() ? " as vector" : " as scalar") << ": value has the bytes [" << pbt::printable(e) << "], the file [" << pbt::printable(m.cells[r][k]) << "]"); }
        std::size_t r = 0; for (auto it = v.begin(); it != v.end(); ++it) { PBT_CHECK(r < m.rows, "iteration visits too many rows"); T got = *it; PBT_CHECK(same_field(q.type, field<T>::enc(got), m.cells[r][k]), "iteration, row " << r << " of " << q.name); r++; }
        PBT_EQ(r, m.rows, "rows visited by iterating " << q.name);
    } };
static void check_views(Case& c, bio::binary_table& t, const Hdu& m) {
    std::vector<std::size_t> order; for (std::size_t k = 0; k < m.cols.size(); k++) order.push_back(k); for (std::size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[c.below(k)]);
    for (std::size_t k : order) { bool sc = c.flag(); c.label(std::string("column ") + m.cols[k].type + (sc && m.cols[k].repeat == 1 ? " scalar" : m.cols[k].repeat == 0 ? " empty" : " vector")); view_check v{t, m, k}; with_type(m.cols[k], sc, v); }
}
static void quiet_all(Hdu& m) {   // no signalling NaNs (they may be quieted by a mere copy)
    m.data.clear(); for (auto& row : m.cells) for (std::size_t k = 0; k < m.cols.size(); k++) { row[k] = quiet(m.cols[k].type, row[k]); m.data += row[k]; }
}
static Hdu gen(Case& c) { Hdu m = gen_binary(c); quiet_all(m); if (c.describe) c.say_s(summary(m)); c.nontrivial(m.rows > 0); return m; }

PBT_PROP(fields, 20000, 500000) {
    Hdu m = gen(c); header_t h = header_of(c, m); bio::binary_table t(h, m.data); check_table(t, m, true); check_views(c, t, m); if (c.chance(1, 3)) { check_views(c, t, m); c.label("columns viewed again, as other types"); }
    bool unknown = false; try { t.get_column<bool>("no such column"); } catch (ba::column_not_found_exception&) { unknown = true; } PBT_CHECK(unknown, "an unknown column is not reported as column_not_found_exception");
    unknown = false; try { t.get_column_metadata(m.cols[0].name + "_"); } catch (ba::column_not_found_exception&) { unknown = true; } PBT_CHECK(unknown, "metadata of an unknown column is not reported");
}
PBT_PROP(from_file, 5000, 120000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 800, 8)); f.push_back(gen(c)); std::string p = c.dir + "/a.fits"; write_file(p, bytes(f)); auto x = bio::fits::open(p); auto& t = bio::fits::convert_to<bio::binary_table>(x[1]);
    check_header(t.get_header(), f[1]); check_table(t, f[1], true); check_views(c, t, f[1]);
}
PBT_PROP(large_tables, 120, 3000) {
    Hdu m; { fitsgen::Large large(c); m = gen_binary(c, 2, 5, c.flag() ? "LXBA" : "IJE"); } quiet_all(m); if (c.describe) c.say_s(summary(m)); c.nontrivial(m.rows > 200 || m.cols.size() > 200);
    header_t h = header_of(c, m); bio::binary_table t(h, m.data); check_table(t, m, true); check_views(c, t, m);
}
// one column of one type, many values: the decoding of scalars, exhaustively spread over the 16-bit types
PBT_PROP(scalar_column, 8000, 200000) {
    Hdu m; m.kind = Hdu::BINARY; m.xtension = "BINTABLE"; m.bitpix = 8; Col q; q.type = "LBIJAEDCMP"[c.below(10)]; q.repeat = 1; q.tform = c.flag() ? "1" : ""; q.tform += q.type; q.width = bin_size(q.type); q.name = "v"; m.cols.push_back(q); m.rows = 1 + c.below(64); m.naxis = {q.width, m.rows};
    put_s(m, "XTENSION", "BINTABLE"); axes_cards(m); put_i(m, "PCOUNT", 0); put_i(m, "GCOUNT", 1); put_i(m, "TFIELDS", 1); put_s(m, "TFORM1", q.tform); put_s(m, "TTYPE1", "v");
    for (std::size_t r = 0; r < m.rows; r++) m.cells.push_back({gen_field(c, q)}); quiet_all(m); c.nontrivial(); if (c.describe) c.say_s(summary(m));
    header_t h = header_of(c, m); bio::binary_table t(h, m.data); view_check v{t, m, 0}; with_type(q, true, v); bio::binary_table u(h, m.data); view_check w{u, m, 0}; with_type(q, false, w);
}
PBT_PROP(set_data_replaces, 5000, 120000) {
    Hdu m = gen(c); if (!m.rows) return; header_t h = header_of(c, m); bio::binary_table t(h, m.data); if (c.flag()) check_views(c, t, m);
    bio::binary_table u(h, m.data); m.data.clear(); std::reverse(m.cells.begin(), m.cells.end()); for (auto& row : m.cells) for (auto& x : row) m.data += x; u.set_data(m.data); check_table(u, m, true); check_views(c, u, m);
}
PBT_PROP(without_data, 2000, 40000) { Hdu m = gen_binary(c); header_t h = header_of(c, m); bio::binary_table t(h, ""); c.nontrivial(); check_table(t, m, false); }
PBT_PROP(formats, 8000, 50000) {
    char ty = "LXBIJAEDCMP"[c.below(11)]; std::size_t n = c.below(100000); bool imp = c.chance(1, 4); if (imp) n = 1; std::string f = (imp ? std::string() : num(static_cast<long long>(n))) + ty; std::string g = c.flag() ? f : c.flag() ? "'" + f + "'" : "'" + f + "     '"; PBT_SAY(c, g); c.nontrivial();
    PBT_EQ(bio::binary_table::get_type(g), ty, "type of " << g); PBT_EQ(bio::binary_table::element_count(g), n, "element count of " << g);
    PBT_EQ(bio::binary_table::column_size(g), ty == 'X' ? (n + 7) / 8 : n * bin_size(ty), "bytes of " << g); PBT_EQ(bio::binary_table::type_size(ty), bin_size(ty), "bytes of type " << ty);
    char bad = static_cast<char>(c.below(256)); if (!std::strchr("LXBIJAEDCMP", bad) || bad == 0) { bool rep = false; try { bio::binary_table::type_size(bad); } catch (ba::invalid_table_colum_format&) { rep = true; } PBT_CHECK(rep, "unknown type code " << static_cast<int>(bad) << " is not reported"); }
}
PBT_PROP(unknown_or_wide_columns_refused, 6000, 150000) {
    Hdu m = gen_binary(c, 5, 8); if (!m.rows) return; std::size_t k = c.below(m.cols.size()); std::string n = num(static_cast<long long>(k) + 1); int how = static_cast<int>(c.below(4)); std::string buf = m.data;
    auto replace_card = [&](const std::string& key, const std::string& v) { for (auto& cd : m.cards) if (trim(cd.substr(0, 8)) == key) cd = card(key, v); };
    switch (how) {
    case 0: replace_card("TFORM" + n, std::string("'1") + c.pick({'Z', 'K', 'Q', 'x', '!', '1', 'l'}) + "'"); break;
    case 1: replace_card("TFORM" + n, "'" + num(static_cast<long long>(m.naxis[0] + 1 + c.below(100))) + "M'"); break;
    case 3: { if (m.naxis[0] < 2) return; std::size_t less = 1 + c.below(std::min<std::size_t>(m.naxis[0] - 1, 3)); replace_card("NAXIS1", rjust(num(static_cast<long long>(m.naxis[0] - less)), 20)); if (c.flag()) { replace_card("PCOUNT", rjust(num(static_cast<long long>(less * m.rows)), 20)); c.label("heap behind rows that are too narrow"); } else buf.resize((m.naxis[0] - less) * m.rows); break; }   // the last column reaches beyond its row
    default: if (buf.size() < 2) return; buf = buf.substr(0, buf.size() - 1 - c.below(std::min<std::size_t>(m.naxis[0], buf.size() - 1))); if (buf.empty()) return;
    }
    if (how < 2 && c.flag()) buf += std::string(1 + c.below(3000), '7');   // more bytes behind the last row, such as a heap
    c.nontrivial(); PBT_SAY(c, summary(m) << " damage " << how << " column " << n << " buffer " << buf.size()); c.label("damage " + num(how));
    header_t h = header_of(c, m); PBT_CHECK(throws([&] { bio::binary_table t(h, buf); }), "an unknown or too wide column was read (damage " << how << ")");
}

// A view of a type that needs more bytes than the field has is reported when it is read, never read beyond the field
struct read_other { bio::binary_table& t; const std::string& name; std::size_t row; template <class T> void operator()(tag<T>) { T x = t.template get_column<T>(name)[static_cast<int>(row)]; got = field<T>::enc(x); } std::string got; };
PBT_PROP(wider_types_refused, 8000, 200000) {
    Hdu m = gen_binary(c, 4, 6); if (!m.rows || m.rows > 50) return; if (c.describe) c.say_s(summary(m)); header_t h = header_of(c, m); bio::binary_table t(h, m.data);
    std::size_t k = c.below(m.cols.size()), r = c.below(m.rows); Col q = m.cols[k]; q.type = "LBIJAEDCMP"[c.below(10)]; bool scalar = c.flag(); std::size_t n = q.type == 'X' ? q.width : m.cols[k].type == 'X' ? q.width : q.repeat; std::size_t need = (scalar ? 1 : n) * bin_size(q.type); q.repeat = scalar ? 1 : 2;
    PBT_SAY(c, "column " << q.name << " (" << q.tform << ", " << q.width << " bytes) as " << (scalar ? "scalar " : "vector of ") << q.type); c.nontrivial(need > q.width); c.label(need > q.width ? "wider" : "fits");
    read_other x{t, q.name, r, ""}; bool refused = throws([&] { with_type(q, scalar, x); }); if (need > q.width) PBT_CHECK(refused, "a field of " << q.width << " bytes was read as " << need << " bytes");
    else if (!refused) { std::string want = m.cells[r][k].substr(0, need); PBT_CHECK(same_field(q.type, x.got, want), "a field [" << pbt::printable(m.cells[r][k]) << "] read as " << q.type << " has the bytes [" << pbt::printable(x.got) << "]"); } else PBT_CHECK(scalar && q.width > 1 && (q.type == 'A' || q.type == 'B'), "a field of " << q.width << " bytes was refused as " << need << " bytes");
    // a cell that was made shorter
    if (m.cols[k].width > 1) { t.get_data()[r][k].resize(c.below(m.cols[k].width)); read_other y{t, q.name, r, ""}; bool sc = c.flag(); PBT_CHECK(throws([&] { with_type(m.cols[k], sc, y); }), "a cell that is too short was read"); }
}
