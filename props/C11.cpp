// C11: column views stay consistent with their table through any edits.
#include "tables.hpp"
#include <deque>
#include <functional>
#include <memory>
using namespace tables;
namespace pbt {
const char* const property_id = "C11";
const char* const property_rule = "histories of 3..40 operations on up to three tables that are copies and assignments of one another (binary: all column types, scalar and vector views; ASCII: text, integer and float views): get views, keep them, read, write, assign one field to another, iterate, edit cells, replace the data, copy and assign tables; after every step all cells of all tables are compared with the model; non-trivial: a kept view is used after a write through another way";
}
static std::string fmt6(double v) { std::ostringstream o; o << v; return o.str(); }

// ---- binary tables -------------------------------------------------------------------------------------
struct read_bin { bio::binary_table& t; const Col& k; std::size_t row; const std::string& want; bool iterate;
    template <class T> void operator()(tag<T>) { auto& v = t.template get_column<T>(k.name); T got;
        if (iterate) { auto it = v.begin(); for (std::size_t i = 0; i < row; i++) ++it; got = *it; } else got = v[static_cast<int>(row)];
        PBT_CHECK(same_field(k.type, field<T>::enc(got), want), (iterate ? "iterator" : "view") << " of " << k.name << ":" << k.tform << " row " << row << " returns [" << pbt::printable(field<T>::enc(got)) << "], the table holds [" << pbt::printable(want) << "]"); } };
struct write_bin { bio::binary_table& t; const Col& k; std::size_t row; const std::string& bytes; int how;
    template <class T> void operator()(tag<T>) { T x = field<T>::dec(bytes);
        if (how == 0) { auto& v = t.template get_column<T>(k.name); v[static_cast<int>(row)] = x; }
        else if (how == 1) { auto v = t.template get_column<T>(k.name); auto p = v[static_cast<int>(row)]; p = x; T y = p; PBT_CHECK(same_field(k.type, field<T>::enc(y), field<T>::enc(x)), "a field of " << k.name << ":" << k.tform << " read back after a write returns [" << pbt::printable(field<T>::enc(y)) << "], written was [" << pbt::printable(field<T>::enc(x)) << "]"); }           // copy of the view, kept proxy
        else if (how == 2) { auto v = t.template make_column_view<T, bio::binary_data_converter>(k.name); v.update_value(static_cast<int>(row), x); }   // an independent view
        else { auto& v = t.template get_column<T>(k.name); auto it = v.begin(); for (std::size_t i = 0; i < row; i++) ++it; *it = x; } } };
// one field is assigned to another: view[row] = view[from]
struct copy_bin { bio::binary_table& t; const Col& k; std::size_t row, from; int how; std::string& want;
    template <class T> void operator()(tag<T>) { want = field<T>::enc(field<T>::dec(want)); auto& v = t.template get_column<T>(k.name); int r = static_cast<int>(row), f = static_cast<int>(from);
        if (how == 0) v[r] = v[f]; else if (how == 1) { auto p = v[r]; auto q = v[f]; p = q; } else if (how == 2) { auto u = t.template make_column_view<T, bio::binary_data_converter>(k.name); v[r] = u[f]; } else { const auto q = v[f]; auto it = v.begin(); for (int i = 0; i < r; i++) ++it; *it = q; } } };
// a kept view: type-erased read and write
struct Kept { std::size_t table; std::size_t col; bool scalar; bool used_after_write; };

template <class Table> void compare(Table& t, const Hdu& m, std::size_t i) {
    auto& d = t.get_data(); PBT_EQ(d.size(), m.rows, "rows of table " << i);
    for (std::size_t r = 0; r < m.rows; r++) for (std::size_t k = 0; k < m.cols.size(); k++) PBT_CHECK(d[r][k] == m.cells[r][k], "table " << i << " row " << r << " column " << m.cols[k].name << " holds [" << pbt::printable(d[r][k]) << "], expected [" << pbt::printable(m.cells[r][k]) << "]");
}
PBT_PROP(binary_histories, 16000, 400000) {
    Hdu m0 = gen_binary(c, 5, 6); if (!m0.rows) { m0.rows = 0; return; } m0.data.clear(); for (auto& row : m0.cells) for (std::size_t k = 0; k < m0.cols.size(); k++) { row[k] = quiet(m0.cols[k].type, row[k]); m0.data += row[k]; }
    if (m0.rows > 12) return; if (c.describe) c.say_s(summary(m0)); header_t h = header_of(c, m0);
    std::vector<bio::binary_table> t(3, bio::binary_table(h, m0.data)); std::vector<Hdu> m(3, m0); bool wrote = false;
    std::size_t steps = 3 + c.below(38);
    for (std::size_t s = 0; s < steps; s++) {
        std::size_t i = c.below(3), r = c.below(m0.rows), k = c.below(m0.cols.size()); const Col& q = m0.cols[k];
        bool scalar = c.flag();   // a column may be viewed as scalars and as vectors at the same time
        switch (c.below(11)) {
        case 9: { if (!q.width) break; std::size_t from = c.below(m0.rows); int how = static_cast<int>(c.below(4)); std::string b = m[i].cells[from][k]; PBT_SAY(c, "table" << i << " row " << r << " " << q.name << ":" << q.tform << " = row " << from << " way " << how); copy_bin x{t[i], q, r, from, how, b}; with_type(q, scalar, x); m[i].cells[r][k] = b; wrote = true; break; }
        case 0: case 1: case 2: { bool iter = c.chance(1, 3); PBT_SAY(c, "table" << i << " read row " << r << " " << q.name << ":" << q.tform << (iter ? " by iterator" : "")); c.nontrivial(wrote); read_bin x{t[i], q, r, m[i].cells[r][k], iter}; with_type(q, scalar, x); break; }
        case 3: case 4: case 5: { if (!q.width) break; std::string b = gen_field(c, q); int how = static_cast<int>(c.below(4)); PBT_SAY(c, "table" << i << " write row " << r << " " << q.name << ":" << q.tform << " = " << pbt::printable(b) << " way " << how); write_bin x{t[i], q, r, b, how}; with_type(q, scalar, x); m[i].cells[r][k] = b; wrote = true; break; }
        case 6: { std::string b = gen_field(c, q); PBT_SAY(c, "table" << i << " cell row " << r << " " << q.name << " = " << pbt::printable(b)); t[i].get_data()[r][k] = b; m[i].cells[r][k] = b; wrote = true; break; }
        case 7: { std::string d; m[i].cells.clear(); for (std::size_t a = 0; a < m0.rows; a++) { m[i].cells.emplace_back(); for (auto& z : m0.cols) { m[i].cells.back().push_back(gen_field(c, z)); d += m[i].cells.back().back(); } } PBT_SAY(c, "table" << i << " set_data"); t[i].set_data(d); wrote = true; break; }
        case 8: { std::size_t j = c.below(3); PBT_SAY(c, "table" << i << " = table" << j); if (i != j) { t[i] = t[j]; m[i] = m[j]; } break; }
        default: { PBT_SAY(c, "copy of table" << i); bio::binary_table u(t[i]); if (q.width) { std::string b = gen_field(c, q); write_bin x{u, q, r, b, 0}; with_type(q, c.flag(), x); PBT_CHECK(u.get_data()[r][k] == b, "a write to a copy did not reach it"); } break; }
        }
        for (std::size_t j = 0; j < 3; j++) compare(t[j], m[j], j);
    }
    for (std::size_t j = 0; j < 3; j++) for (std::size_t k = 0; k < m0.cols.size(); k++) for (std::size_t r = 0; r < m0.rows; r++) { bool scalar = c.flag(); read_bin x{t[j], m0.cols[k], r, m[j].cells[r][k], false}; with_type(m0.cols[k], scalar, x); }
}
// Views that are kept while the table changes under them (references, copies of views, proxies)
PBT_PROP(kept_binary_views, 10000, 250000) {
    Hdu m; m.kind = Hdu::BINARY; m.xtension = "BINTABLE"; m.bitpix = 8; std::size_t rows = 1 + c.below(5), off = 0;
    for (int i = 0; i < 3; i++) { Col q; q.type = "JID"[i]; q.repeat = i == 2 ? 1 + c.below(3) : 1; q.tform = num(static_cast<long long>(q.repeat)) + q.type; q.width = q.repeat * bin_size(q.type); q.tbcol = off; off += q.width; q.name = std::string(1, "jid"[i]); m.cols.push_back(q); }
    m.rows = rows; m.naxis = {off, rows}; put_s(m, "XTENSION", "BINTABLE"); axes_cards(m); put_i(m, "PCOUNT", 0); put_i(m, "GCOUNT", 1); put_i(m, "TFIELDS", 3); for (std::size_t i = 0; i < 3; i++) { put_s(m, "TFORM" + num(static_cast<long long>(i) + 1), m.cols[i].tform); put_s(m, "TTYPE" + num(static_cast<long long>(i) + 1), m.cols[i].name); }
    auto fill = [&] { m.data.clear(); m.cells.clear(); for (std::size_t r = 0; r < rows; r++) { m.cells.emplace_back(); for (auto& q : m.cols) { m.cells.back().push_back(gen_field(c, q)); m.data += m.cells.back().back(); } } };
    fill(); header_t h = header_of(c, m); bio::binary_table t(h, m.data);
    auto& j1 = t.get_column<boost::int32_t>("j"); auto j2 = t.get_column<boost::int32_t>("j"); auto j3 = t.make_column_view<boost::int32_t, bio::binary_data_converter>("j"); auto& i1 = t.get_column<boost::int16_t>("i"); auto& d1 = t.get_column<std::vector<double>>("d");
    bio::binary_table other(t); std::vector<std::vector<std::string>> frozen = m.cells; std::size_t steps = 3 + c.below(25);
    for (std::size_t s = 0; s < steps; s++) {
        std::size_t r = c.below(rows); boost::int32_t v = static_cast<boost::int32_t>(c.integer(-2147483647LL, 2147483647LL)); boost::int16_t w = static_cast<boost::int16_t>(c.range(-32768, 32767));
        switch (c.below(11)) {
        case 8: { std::size_t a = c.below(rows); PBT_SAY(c, "view1[" << r << "] = copied view[" << a << "]"); j1[static_cast<int>(r)] = j2[static_cast<int>(a)]; m.cells[r][0] = m.cells[a][0]; break; }
        case 9: { std::size_t a = c.below(rows); PBT_SAY(c, "exchange rows " << r << ", " << a << " of j and d"); boost::int32_t z = j1[static_cast<int>(r)]; j1[static_cast<int>(r)] = j3[static_cast<int>(a)]; j3[static_cast<int>(a)] = z; std::swap(m.cells[r][0], m.cells[a][0]); std::vector<double> y = d1[static_cast<int>(r)]; d1[static_cast<int>(r)] = d1[static_cast<int>(a)]; d1[static_cast<int>(a)] = y; std::swap(m.cells[r][2], m.cells[a][2]); break; }
        case 0: PBT_SAY(c, "view1[" << r << "] = " << v); j1[static_cast<int>(r)] = v; m.cells[r][0] = to_be(v); break;
        case 1: PBT_SAY(c, "copied view[" << r << "] = " << v); j2[static_cast<int>(r)] = v; m.cells[r][0] = to_be(v); break;
        case 2: PBT_SAY(c, "own view[" << r << "] = " << v); j3[static_cast<int>(r)] = v; m.cells[r][0] = to_be(v); break;
        case 3: PBT_SAY(c, "cell " << r << " = " << v); t.get_data()[r][0] = to_be(v); m.cells[r][0] = to_be(v); break;
        case 4: PBT_SAY(c, "i[" << r << "] = " << w); i1[static_cast<int>(r)] = w; m.cells[r][1] = to_be(w); break;
        case 5: { std::string b = gen_field(c, m.cols[2]); PBT_SAY(c, "d[" << r << "] = .."); d1[static_cast<int>(r)] = field<std::vector<double>>::dec(b); m.cells[r][2] = b; break; }
        case 6: PBT_SAY(c, "set_data"); fill(); t.set_data(m.data); break;
        case 7: { PBT_SAY(c, "for each: j = " << v); for (auto p : j1) { p = v; } for (auto& row : m.cells) row[0] = to_be(v); break; }
        default: { PBT_SAY(c, "other table writes"); other.get_column<boost::int32_t>("j")[static_cast<int>(r)] = v; frozen[r][0] = to_be(v); break; }
        }
        c.nontrivial(s > 0); compare(t, m, 0); Hdu f = m; f.cells = frozen; compare(other, f, 1);
        for (std::size_t a = 0; a < rows; a++) {
            boost::int32_t want = be<boost::int32_t>(m.cells[a][0], 0); int x = static_cast<int>(a);
            PBT_EQ(static_cast<boost::int32_t>(j1[x]), want, "view 1, row " << a); PBT_EQ(static_cast<boost::int32_t>(j2[x]), want, "copied view, row " << a); PBT_EQ(static_cast<boost::int32_t>(j3[x]), want, "own view, row " << a);
            PBT_EQ(static_cast<boost::int16_t>(i1[x]), be<boost::int16_t>(m.cells[a][1], 0), "i view, row " << a); std::vector<double> d = d1[x]; PBT_CHECK(field<std::vector<double>>::enc(d) == m.cells[a][2], "d view, row " << a);
        }
    }
}
// ---- ASCII tables --------------------------------------------------------------------------------------
PBT_PROP(ascii_histories, 16000, 400000) {
    Hdu m0 = gen_ascii(c, 5, 6); if (!m0.rows || m0.rows > 12) return; if (c.describe) c.say_s(summary(m0)); header_t h = header_of(c, m0);
    std::vector<bio::ascii_table> t(3, bio::ascii_table(h, m0.data)); std::vector<Hdu> m(3, m0); bool wrote = false; std::size_t steps = 3 + c.below(38);
    for (std::size_t s = 0; s < steps; s++) {
        std::size_t i = c.below(3), r = c.below(m0.rows), k = c.below(m0.cols.size()); const Col& q = m0.cols[k]; int x = static_cast<int>(r);
        auto tod = [](std::string e) { for (char& ch : e) if (ch == 'D') ch = 'E'; return std::strtod(e.c_str(), 0); };
        switch (c.below(9)) {
        case 7: { std::size_t from = c.below(m0.rows); PBT_SAY(c, "table" << i << " row " << r << " " << q.name << " = row " << from); auto& v = t[i].get_column<std::string>(q.name); if (c.flag()) v[x] = v[static_cast<int>(from)]; else { auto p = v[x]; p = v[static_cast<int>(from)]; std::string g = p; PBT_CHECK(g == m[i].cells[from][k], "a field read back after a write returns [" << g << "], expected [" << m[i].cells[from][k] << "]"); } m[i].cells[r][k] = m[i].cells[from][k]; wrote = true; break; }
        case 0: case 1: { PBT_SAY(c, "table" << i << " read row " << r << " " << q.name << ":" << q.tform); c.nontrivial(wrote); const std::string& w = m[i].cells[r][k];
            int as = static_cast<int>(c.below(3));
            if (q.type == 'A' || as == 0) { std::string g = t[i].get_column<std::string>(q.name)[x]; PBT_CHECK(g == w, "text view of " << q.name << " row " << r << " returns [" << g << "], expected [" << w << "]"); }
            else if (q.type == 'I' && as == 1) { long long g = t[i].get_column<long long>(q.name)[x]; PBT_EQ(g, std::strtoll(w.c_str(), 0, 10), "integer view of " << q.name << " row " << r); }
            else if (q.type == 'E' && as == 1) { float g = t[i].get_column<float>(q.name)[x]; PBT_EQ(g, std::strtof(w.c_str(), 0), "float view of " << q.name << " row " << r); }
            else { double g = t[i].get_column<double>(q.name)[x]; PBT_EQ(g, tod(w), "double view of " << q.name << " row " << r); } break; }
        case 2: case 3: { std::string w; 
            if (q.type == 'A' || c.chance(1, 4)) { w = q.type == 'A' ? inner_text(c, q.width) : ascii_cell(c, q, q.type); t[i].get_column<std::string>(q.name)[x] = w; }
            else if (q.type == 'I') { long long v = c.range(-9, 99); w = num(v); t[i].get_column<long long>(q.name)[x] = v; }
            else if (q.type == 'E') { float v = static_cast<float>(c.range(-999, 999)) / 8; w = fmt6(v); t[i].get_column<float>(q.name)[x] = v; }
            else { double v = static_cast<double>(c.range(-9999, 9999)) / 100; w = fmt6(v); auto vw = t[i].get_column<double>(q.name); vw[x] = v; }
            PBT_SAY(c, "table" << i << " write row " << r << " " << q.name << ":" << q.tform << " = " << w);
            std::string got = t[i].get_data()[r][k]; if (got != w) { PBT_CHECK(q.type != 'A' && q.type != 'I', "cell after a write is [" << got << "], expected [" << w << "]"); PBT_CHECK(std::fabs(tod(got) - tod(w)) <= 1e-5 * std::fabs(tod(w)), "cell after a write is [" << got << "], expected [" << w << "]"); w = got; }
            m[i].cells[r][k] = w; wrote = true; break; }
        case 4: { std::string w = ascii_cell(c, q, q.type); PBT_SAY(c, "table" << i << " cell row " << r << " " << q.name << " = " << w); t[i].get_data()[r][k] = w; m[i].cells[r][k] = w; wrote = true; break; }
        case 5: { std::string d; m[i].cells.clear(); for (std::size_t a = 0; a < m0.rows; a++) { std::string row(m0.naxis[0], ' '); m[i].cells.emplace_back(); for (auto& z : m0.cols) { std::string w = ascii_cell(c, z, z.type); m[i].cells.back().push_back(w); row.replace(z.tbcol - 1, w.size(), w); } d += row; } PBT_SAY(c, "table" << i << " set_data"); t[i].set_data(d); wrote = true; break; }
        case 6: { std::size_t j = c.below(3); PBT_SAY(c, "table" << i << " = table" << j); if (i != j) { t[i] = t[j]; m[i] = m[j]; } break; }
        default: { PBT_SAY(c, "copy of table" << i); bio::ascii_table u(t[i]); if (q.type == 'A') { u.get_column<std::string>(q.name)[x] = "Q"; PBT_CHECK(u.get_data()[r][k] == "Q", "a write to a copy did not reach it"); } break; }
        }
        for (std::size_t j = 0; j < 3; j++) compare(t[j], m[j], j);
    }
}

// Tables with more rows or columns than small counters hold: writes and reads through views at any place
PBT_PROP(large_tables, 120, 3000) {
    bool binary = c.flag(); Hdu m; { fitsgen::Large large(c); m = binary ? gen_binary(c, 2, 5, c.flag() ? "LXBA" : "IJE") : gen_ascii(c, 2, 5); } if (!m.rows) return; if (c.describe) c.say_s(summary(m)); c.nontrivial(m.rows > 200 || m.cols.size() > 200); c.label(binary ? "binary" : "ASCII");
    auto at = [&](std::size_t n) { return c.chance(1, 6) ? n - 1 : c.below(n); }; std::size_t ops = 1 + c.below(8); header_t h = header_of(c, m);
    if (binary) { bio::binary_table t(h, m.data); for (std::size_t o = 0; o < ops; o++) { std::size_t r = at(m.rows), k = at(m.cols.size()); const Col& q = m.cols[k]; if (!q.width) continue; std::string b = quiet(q.type, gen_field(c, q)); int how = static_cast<int>(c.below(4)); PBT_SAY(c, "write row " << r << " " << q.name << ":" << q.tform << " = " << pbt::printable(b) << " way " << how); bool sc = c.flag(); write_bin w{t, q, r, b, how}; with_type(q, sc, w); m.cells[r][k] = b; read_bin x{t, q, r, b, c.flag()}; with_type(q, sc, x); } compare(t, m, 0); }
    else { bio::ascii_table t(h, m.data); for (std::size_t o = 0; o < ops; o++) { std::size_t r = at(m.rows), k = at(m.cols.size()); const Col& q = m.cols[k]; std::string w = ascii_cell(c, q, q.type); PBT_SAY(c, "write row " << r << " " << q.name << " = " << w); t.get_column<std::string>(q.name)[static_cast<int>(r)] = w; m.cells[r][k] = w; std::string g = t.get_column<std::string>(q.name)[static_cast<int>(r)]; PBT_CHECK(g == w, "row " << r << " of " << q.name << " reads [" << g << "] after writing [" << w << "]"); } compare(t, m, 0); }
}
// Views that are kept (as the reference that get_column returned, or as a copy of it) while their table is edited, refilled and assigned to
struct held { std::size_t table, col; std::function<std::string(int)> read; std::function<void(int, const std::string&)> write; std::function<std::size_t()> count; };
struct hold_bin { bio::binary_table& t; const Col& k; bool copy; held& h; template <class T> void operator()(tag<T>) {
    typedef bio::column_view<T, bio::binary_data_converter> view; std::shared_ptr<view> own; view* v = &t.template get_column<T>(k.name); if (copy) { own = std::make_shared<view>(*v); v = own.get(); }
    h.read = [v, own](int r) { T x = (*v)[r]; return field<T>::enc(x); }; h.write = [v, own](int r, const std::string& b) { (*v)[r] = field<T>::dec(b); }; h.count = [v, own] { std::size_t n = 0; auto e = v->end(); for (auto it = v->begin(); it != e; ++it) n++; return n; }; } };
struct hold_ascii { bio::ascii_table& t; const Col& k; bool copy; held& h; void go() {
    typedef bio::column_view<std::string, bio::ascii_converter> view; std::shared_ptr<view> own; view* v = &t.get_column<std::string>(k.name); if (copy) { own = std::make_shared<view>(*v); v = own.get(); }
    h.read = [v, own](int r) { std::string x = (*v)[r]; return x; }; h.write = [v, own](int r, const std::string& b) { (*v)[r] = b; }; h.count = [v, own] { std::size_t n = 0; auto e = v->end(); for (auto it = v->begin(); it != e; ++it) n++; return n; }; } };
static void hold(bio::binary_table& t, const Col& q, bool scalar, bool copy, held& h) { hold_bin x{t, q, copy, h}; with_type(q, scalar, x); }
static void hold(bio::ascii_table& t, const Col& q, bool, bool copy, held& h) { hold_ascii x{t, q, copy, h}; x.go(); }
template <class Table, class Field, class Row> static void held_history(Case& c, const Hdu& m0, Field field_of, Row row_of) {
    header_t h = header_of(c, m0); std::deque<Table> t; for (int i = 0; i < 2; i++) t.emplace_back(h, m0.data); std::vector<Hdu> m(2, m0); std::vector<held> v; std::size_t steps = 4 + c.below(30);
    for (std::size_t s = 0; s < steps; s++) {
        std::size_t i = c.below(2), r = c.below(m0.rows), k = c.below(m0.cols.size()); const Col* q = &m0.cols[k]; int x = static_cast<int>(r);
        switch (v.empty() ? 0 : c.below(8)) {
        case 0: { bool copy = c.flag(), sc = c.flag(); PBT_SAY(c, "view " << v.size() << ": " << (copy ? "copy of the view of " : "view of ") << q->name << ":" << q->tform << " of table" << i); held e; e.table = i; e.col = k; hold(t[i], *q, sc, copy, e); v.push_back(e); break; }
        case 1: { std::string b = field_of(*q); PBT_SAY(c, "table" << i << " cell row " << r << " " << q->name << " = " << pbt::printable(b)); t[i].get_data()[r][k] = b; m[i].cells[r][k] = b; break; }
        case 2: { std::string d; m[i].cells.clear(); for (std::size_t a = 0; a < m0.rows; a++) { m[i].cells.emplace_back(); for (auto& z : m0.cols) m[i].cells.back().push_back(field_of(z)); d += row_of(m[i].cells.back()); } PBT_SAY(c, "table" << i << " set_data"); t[i].set_data(d); c.label("set_data under a view"); break; }
        case 3: { PBT_SAY(c, "table" << i << " = table" << 1 - i); t[i] = t[1 - i]; m[i] = m[1 - i]; c.label("assignment under a view"); break; }
        case 4: { PBT_SAY(c, "table" << i << " restored from a copy"); Table saved(t[i]); t[i].get_data()[r][k] = field_of(*q); t[i] = saved; break; }
        case 5: case 6: { const held& e = v[c.below(v.size())]; q = &m0.cols[e.col]; if (!q->width) break; std::string b = field_of(*q); PBT_SAY(c, "kept view of " << q->name << " of table" << e.table << " row " << r << " = " << pbt::printable(b)); e.write(x, b); m[e.table].cells[r][e.col] = b; break; }
        default: break;
        }
        c.nontrivial(v.size() > 1 && s > 3);
        for (std::size_t j = 0; j < v.size(); j++) { const held& e = v[j]; q = &m0.cols[e.col]; std::string g = e.read(x); const std::string& w = m[e.table].cells[r][e.col]; PBT_CHECK(same_field(q->type, g, w), "kept view " << j << " (" << q->name << " of table" << e.table << ") row " << r << " returns [" << pbt::printable(g) << "], the table holds [" << pbt::printable(w) << "]"); if (c.chance(1, 6)) PBT_EQ(e.count(), m0.rows, "rows visited by a kept view"); }
        for (std::size_t j = 0; j < 2; j++) compare(t[j], m[j], j);
    }
}
PBT_PROP(held_binary_views, 8000, 200000) {
    Hdu m = gen_binary(c, 4, 5); if (!m.rows || m.rows > 12) return; m.data.clear(); for (auto& row : m.cells) for (std::size_t k = 0; k < m.cols.size(); k++) { row[k] = quiet(m.cols[k].type, row[k]); m.data += row[k]; } if (c.describe) c.say_s(summary(m));
    held_history<bio::binary_table>(c, m, [&](const Col& q) { return quiet(q.type, gen_field(c, q)); }, [](const std::vector<std::string>& f) { std::string s; for (auto& x : f) s += x; return s; });
}
PBT_PROP(held_ascii_views, 8000, 200000) {
    Hdu m = gen_ascii(c, 4, 5); if (!m.rows || m.rows > 12) return; for (auto& q : m.cols) if (q.type == 'L') return; if (c.describe) c.say_s(summary(m));
    held_history<bio::ascii_table>(c, m, [&](const Col& q) { return ascii_cell(c, q, q.type); }, [&](const std::vector<std::string>& f) { std::string row(m.naxis[0], ' '); for (std::size_t k = 0; k < f.size(); k++) row.replace(m.cols[k].tbcol - 1, f[k].size(), f[k]); return row; });
}
// Assigning a table of another layout: its columns are then found at their places, in their types, whatever was viewed before
template <class F> static void assign_layouts(Case& c, Hdu a, Hdu b, F f) { for (std::size_t k = 0; k < b.cols.size(); k++) for (auto& q : a.cols) if (c.chance(1, 2)) { bool taken = false; for (auto& z : b.cols) if (z.name == q.name) taken = true; if (!taken) { for (auto& cd : b.cards) if (trim(cd.substr(0, 8)) == "TTYPE" + num(static_cast<long long>(k) + 1)) cd = card(trim(cd.substr(0, 8)), quote(q.name)); b.cols[k].name = q.name; break; } } if (c.describe) { c.say_s(summary(a)); c.say_s(summary(b)); } c.nontrivial(a.rows && b.rows); f(a, b); }
struct get_bin { bio::binary_table& t; const std::string& n; template <class T> void operator()(tag<T>) { t.template get_column<T>(n); } };
PBT_PROP(assign_binary_layouts, 3000, 80000) {
    auto fix = [](Hdu& m) { m.data.clear(); for (auto& row : m.cells) for (std::size_t k = 0; k < m.cols.size(); k++) { row[k] = quiet(m.cols[k].type, row[k]); m.data += row[k]; } };
    Hdu a = gen_binary(c, 4, 5), b = gen_binary(c, 4, 5); if (a.rows > 12 || b.rows > 12) return; fix(a); fix(b);
    assign_layouts(c, a, b, [&](Hdu& a, Hdu& b) {
        header_t ha = header_of(c, a), hb = header_of(c, b); bio::binary_table t(ha, a.data), u(hb, b.data); auto all = [&](bio::binary_table& z, const Hdu& m) { for (std::size_t r = 0; r < m.rows; r++) for (std::size_t k = 0; k < m.cols.size(); k++) { read_bin x{z, m.cols[k], r, m.cells[r][k], false}; with_type(m.cols[k], c.flag(), x); } };
        all(t, a); if (c.flag()) all(u, b); t = u; compare(t, b, 0); all(t, b); all(u, b);
        for (auto& q : a.cols) { bool there = false; for (auto& z : b.cols) if (z.name == q.name) there = true; if (there || !b.rows) continue; bool thrown = false; get_bin g{t, q.name}; try { with_type(q, true, g); } catch (std::exception&) { thrown = true; } PBT_CHECK(thrown, "a column of the table that was assigned over is still found: " << q.name); }
    });
}
PBT_PROP(assign_ascii_layouts, 3000, 80000) {
    Hdu a = gen_ascii(c, 4, 5), b = gen_ascii(c, 4, 5); if (a.rows > 12 || b.rows > 12) return;
    assign_layouts(c, a, b, [&](Hdu& a, Hdu& b) {
        header_t ha = header_of(c, a), hb = header_of(c, b); bio::ascii_table t(ha, a.data), u(hb, b.data); auto all = [&](bio::ascii_table& z, const Hdu& m) { for (std::size_t r = 0; r < m.rows; r++) for (std::size_t k = 0; k < m.cols.size(); k++) { std::string g = z.get_column<std::string>(m.cols[k].name)[static_cast<int>(r)]; PBT_CHECK(g == m.cells[r][k], "text view of " << m.cols[k].name << " row " << r << " returns [" << g << "], expected [" << m.cells[r][k] << "]"); } };
        all(t, a); if (c.flag()) all(u, b); t = u; compare(t, b, 0); all(t, b); all(u, b);
        for (auto& q : a.cols) { bool there = false; for (auto& z : b.cols) if (z.name == q.name) there = true; if (there) continue; bool thrown = false; try { t.get_column<std::string>(q.name); } catch (std::exception&) { thrown = true; } PBT_CHECK(thrown, "a column of the table that was assigned over is still found: " << q.name); }
    });
}
