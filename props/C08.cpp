// C08: ASCII tables expose exactly the fields the header describes.
#include "tables.hpp"
using namespace tables;
namespace pbt {
const char* const property_id = "C08";
const char* const property_rule = "ASCII tables of 1..6 columns (A I F E D, widths 1..21, gaps and trailing columns) and 0..20 (or record-filling) rows, read from a file or built from header and buffer; every cell, every view and iteration compared with the model; damaged column descriptions and unknown names must be reported; non-trivial: at least one row";
}
namespace ba = boost::astronomy;
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static double number(std::string s, bool& ok) { for (char& ch : s) if (ch == 'D') ch = 'E'; char* e = 0; double v = std::strtod(s.c_str(), &e); ok = !s.empty() && *e == 0; return v; }

// every row of a column through operator[] and iteration
template <class T, class Conv> void view_check(const bio::ascii_table& t, const Hdu& m, std::size_t k, Conv conv) {
    const Col& q = m.cols[k]; auto& v = t.get_column<T>(q.name); PBT_EQ(v.get_row_count(), m.rows, "rows of column " << q.name); PBT_EQ(v.get_column_number(), static_cast<int>(k + 1), "number of column " << q.name); check_meta(v, q, k, true);
    bool numeric = true;
    for (std::size_t r = 0; r < m.rows; r++) { bool ok = true; T want = conv(m.cells[r][k], ok);
        if (!ok) { numeric = false; bool rep = false; try { T got = v[static_cast<int>(r)]; (void)got; } catch (ba::invalid_cast&) { rep = true; } PBT_CHECK(rep, "row " << r << " of " << q.name << " [" << m.cells[r][k] << "] is not a number but was converted"); continue; }
        T got = v[static_cast<int>(r)]; PBT_CHECK(got == want, "row " << r << " of " << q.name << ":" << q.tform << " [" << m.cells[r][k] << "]: got " << got << ", expected " << want); }
    if (!numeric) return;
    std::size_t r = 0; for (auto it = v.begin(); it != v.end(); ++it) { PBT_CHECK(r < m.rows, "iteration visits more than " << m.rows << " rows"); bool ok; T want = conv(m.cells[r][k], ok); T got = *it; PBT_CHECK(got == want, "iteration, row " << r << " of " << q.name << ": got " << got << ", expected " << want); r++; }
    PBT_EQ(r, m.rows, "rows visited by iterating " << q.name);
}
static void check_views(Case& c, const bio::ascii_table& t, const Hdu& m) {
    std::vector<std::size_t> order; for (std::size_t k = 0; k < m.cols.size(); k++) order.push_back(k); for (std::size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[c.below(k)]);
    for (std::size_t k : order) {
        char as = m.cols[k].type == 'A' ? (c.chance(1, 3) ? 'd' : 's') : m.cols[k].type == 'I' ? "lds"[c.below(3)] : "dfs"[c.below(3)];
        c.label(std::string("column ") + m.cols[k].type + " as " + as);
        switch (as) {
        case 's': {   // lexical conversion to text: cells containing blanks are not tokens; only blank-free cells are specified
            auto& v = t.get_column<std::string>(m.cols[k].name); for (std::size_t r = 0; r < m.rows; r++) { std::string got = v[static_cast<int>(r)]; PBT_CHECK(got == m.cells[r][k], "row " << r << " of " << m.cols[k].name << ": got [" << got << "], expected [" << m.cells[r][k] << "]"); } break; }
        case 'l': view_check<long long>(t, m, k, [](const std::string& s, bool& ok) { char* e = 0; long long v = std::strtoll(s.c_str(), &e, 10); ok = !s.empty() && *e == 0; return v; }); break;
        case 'f': view_check<float>(t, m, k, [](const std::string& s, bool& ok) { std::string e = s; for (char& ch : e) if (ch == 'D') ch = 'E'; char* p = 0; float v = std::strtof(e.c_str(), &p); ok = !e.empty() && *p == 0; return v; }); break;
        default:
            // text that looks like inf/nan/hex is a number to one parser and text to another: not specified
            if (m.cols[k].type == 'A') { bool plain = true; for (auto& row : m.cells) { const std::string& s = row[k]; bool ok; number(s, ok); if (ok) plain = false; for (char ch : s) if (!std::isalpha(static_cast<unsigned char>(ch)) || std::strchr("iInNaAfFdDxXeE", ch)) plain = false; if (s.empty()) plain = false; } if (!plain) break; }
            view_check<double>(t, m, k, number);
        }
    }
}
static Hdu gen(Case& c) { Hdu m = gen_ascii(c); if (c.describe) c.say_s(summary(m)); c.nontrivial(m.rows > 0); c.label(m.rows > 20, "many rows"); return m; }

PBT_PROP(fields, 20000, 500000) {
    Hdu m = gen(c); header_t h = header_of(c, m); bio::ascii_table t(h, m.data);
    check_table(t, m, true); check_views(c, t, m); if (c.chance(1, 3)) { check_views(c, t, m); c.label("columns viewed again, as other types"); }
    bool unknown = false; try { t.get_column<std::string>("no such column"); } catch (ba::column_not_found_exception&) { unknown = true; } PBT_CHECK(unknown, "an unknown column is not reported as column_not_found_exception");
    unknown = false; try { t.get_column_metadata(m.cols[0].name + "_"); } catch (ba::column_not_found_exception&) { unknown = true; } PBT_CHECK(unknown, "metadata of an unknown column is not reported");
}
PBT_PROP(large_tables, 120, 3000) {
    Hdu m; { fitsgen::Large large(c); m = gen_ascii(c, 2, 5); } if (c.describe) c.say_s(summary(m)); c.nontrivial(m.rows > 200 || m.cols.size() > 200);
    header_t h = header_of(c, m); bio::ascii_table t(h, m.data); check_table(t, m, true); check_views(c, t, m);
}
PBT_PROP(from_file, 5000, 120000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 800, 8)); f.push_back(gen(c)); std::string p = c.dir + "/a.fits"; write_file(p, bytes(f)); auto x = bio::fits::open(p); auto& t = bio::fits::convert_to<bio::ascii_table>(x[1]);
    check_header(t.get_header(), f[1]); check_table(t, f[1], true); check_views(c, t, f[1]);
}
PBT_PROP(set_data_replaces, 5000, 120000) {
    Hdu m = gen(c); if (!m.rows) return; header_t h = header_of(c, m); bio::ascii_table t(h, m.data);
    std::string d; for (std::size_t r = m.rows; r-- > 0;) { d += m.data.substr(r * m.naxis[0], m.naxis[0]); } std::reverse(m.cells.begin(), m.cells.end()); t.set_data(d); check_table(t, m, true); check_views(c, t, m);
}
// no data: metadata only
PBT_PROP(without_data, 2000, 40000) { Hdu m = gen_ascii(c); header_t h = header_of(c, m); bio::ascii_table t(h, ""); c.nontrivial(); check_table(t, m, false); }
// format strings
PBT_PROP(formats, 5000, 50000) {
    std::size_t w = 1 + c.below(9999); char ty = "AIFED"[c.below(5)]; std::string f = std::string(1, ty) + num(static_cast<long long>(w)); if (ty != 'A' && ty != 'I') f += "." + num(c.range(0, 20)); std::string g = c.flag() ? f : c.flag() ? "'" + f + "'" : "'" + f + "   '"; PBT_SAY(c, g); c.nontrivial();
    PBT_EQ(bio::ascii_table::column_size(g), w, "width of " << g); PBT_EQ(bio::ascii_table::get_type(g), ty, "type of " << g);
}
// columns outside of their row, or buffers shorter than the table, are refused
PBT_PROP(out_of_bounds_refused, 6000, 150000) {
    Hdu m = gen_ascii(c, 5, 8); if (!m.rows) return; std::size_t k = c.below(m.cols.size()); std::string n = num(static_cast<long long>(k) + 1); std::string buf = m.data; int how = static_cast<int>(c.below(4));
    auto replace_card = [&](const std::string& key, const std::string& v) { for (auto& cd : m.cards) if (trim(cd.substr(0, 8)) == key) cd = card(key, v); };
    switch (how) {
    case 0: replace_card("TBCOL" + n, rjust(num(static_cast<long long>(m.naxis[0] - m.cols[k].width + 2 + c.below(5))), 20)); break;
    case 1: replace_card("TBCOL" + n, rjust("0", 20)); break;
    case 2: replace_card("TFORM" + n, "'A" + num(static_cast<long long>(m.naxis[0] - m.cols[k].tbcol + 2 + c.below(1000))) + "'"); break;
    default: { std::size_t need = (m.rows - 1) * m.naxis[0]; std::size_t last = 0; for (auto& q : m.cols) last = std::max(last, q.tbcol - 1 + q.width); buf = buf.substr(0, need + c.below(last)); if (buf.empty()) return; }
    }
    if (how < 3 && c.flag()) buf += std::string(1 + c.below(1200), '7');   // more bytes behind the last row
    c.nontrivial(); PBT_SAY(c, summary(m) << " damage " << how << " column " << n << " buffer " << buf.size()); c.label("damage " + num(how));
    header_t h = header_of(c, m); PBT_CHECK(throws([&] { bio::ascii_table t(h, buf); }), "a column outside of its row was read (damage " << how << ")");
}
