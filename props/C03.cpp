// C03: files written after edits are valid FITS that hold the edited values.
#include "tables.hpp"
using namespace tables;
namespace pbt {
const char* const property_id = "C03";
const char* const property_rule = "a generated file is opened, its tables are edited by a random sequence of column-view writes, cell-matrix writes, row exchanges and whole-data replacements (also contents and shapes that do not fit; ASCII and binary, all column types), then written; the file is decoded by an independent FITS parser and compared with the model; non-trivial: at least one edit that changes a cell";
}
typedef std::vector<std::vector<std::string>> matrix;

static std::string gen_ascii_text(Case& c, const Col& k) { return ascii_cell(c, k, k.type); }
static std::string fmt6(double v) { std::ostringstream o; o << v; return o.str(); }

struct write_bin { bio::binary_table& t; const Col& k; std::size_t row; const std::string& bytes;
    template <class T> void operator()(tag<T>) { auto& v = t.template get_column<T>(k.name); T x = field<T>::dec(bytes); v[static_cast<int>(row)] = x; } };

static void edit_binary(Case& c, bio::binary_table& t, Hdu& m, std::map<std::string, bool>& as_scalar, bool whole = true) {
    std::size_t r = c.chance(1, 8) ? m.rows - 1 : c.below(m.rows), k = c.chance(1, 8) ? m.cols.size() - 1 : c.below(m.cols.size()); const Col& q = m.cols[k];
    switch (c.below(whole ? 6 : 5)) {
    default: {   // through a view; the view type of a column stays the same (a second type is refused by the library)
        if (q.width == 0) return;
        auto it = as_scalar.find(q.name); bool sc = it != as_scalar.end() ? it->second : (as_scalar[q.name] = c.flag());
        std::string b = gen_field(c, q); write_bin w{t, q, r, b}; with_type(q, sc, w); PBT_SAY(c, "    view write row " << r << " " << q.name << ":" << q.tform << " = " << pbt::printable(b)); c.nontrivial(m.cells[r][k] != b); m.cells[r][k] = b; break; }
    case 3: { std::string b = gen_field(c, q); t.get_data()[r][k] = b; PBT_SAY(c, "    cell write row " << r << " " << q.name << " = " << pbt::printable(b)); c.nontrivial(m.cells[r][k] != b); m.cells[r][k] = b; break; }
    case 4: { std::size_t s = c.below(m.rows); std::swap(t.get_data()[r], t.get_data()[s]); std::swap(m.cells[r], m.cells[s]); PBT_SAY(c, "    exchange rows " << r << "," << s); break; }
    case 5: { std::string d; m.cells.clear(); for (std::size_t i = 0; i < m.rows; i++) { m.cells.emplace_back(); for (auto& z : m.cols) { m.cells.back().push_back(gen_field(c, z)); d += m.cells.back().back(); } } t.set_data(d); PBT_SAY(c, "    set_data"); c.nontrivial(); break; }
    }
}
static void edit_ascii(Case& c, bio::ascii_table& t, Hdu& m, bool whole = true) {
    std::size_t r = c.chance(1, 8) ? m.rows - 1 : c.below(m.rows), k = c.chance(1, 8) ? m.cols.size() - 1 : c.below(m.cols.size()); const Col& q = m.cols[k]; std::string s;
    switch (c.below(whole ? 6 : 5)) {
    default:
        switch (q.type) {
        case 'A': s = inner_text(c, q.width); t.get_column<std::string>(q.name)[static_cast<int>(r)] = s; break;
        case 'I': { long long lim = 1; for (std::size_t i = 1; i < q.width; i++) lim *= 10; long long v = c.integer(-(lim / 10), lim - 1); if (num(v).size() > q.width) v = 0; s = num(v); t.get_column<long long>(q.name)[static_cast<int>(r)] = v; break; }
        case 'F': { double v = static_cast<double>(c.range(-9999, 9999)) / 100; s = fmt6(v); t.get_column<double>(q.name)[static_cast<int>(r)] = v; break; }
        case 'E': { float v = static_cast<float>(c.range(-999, 999)) * 1000000.f; s = fmt6(v); t.get_column<float>(q.name)[static_cast<int>(r)] = v; break; }
        default: { double v = static_cast<double>(c.range(-99999, 99999)) * 1e-7; s = fmt6(v); t.get_column<double>(q.name)[static_cast<int>(r)] = v; break; }
        }
        PBT_SAY(c, "    view write row " << r << " " << q.name << ":" << q.tform << " = [" << s << "]"); c.nontrivial(m.cells[r][k] != s); m.cells[r][k] = s; break;
    case 3: s = gen_ascii_text(c, q); t.get_data()[r][k] = s; PBT_SAY(c, "    cell write row " << r << " " << q.name << " = [" << s << "]"); c.nontrivial(m.cells[r][k] != s); m.cells[r][k] = s; break;
    case 4: { std::size_t z = c.below(m.rows); std::swap(t.get_data()[r], t.get_data()[z]); std::swap(m.cells[r], m.cells[z]); PBT_SAY(c, "    exchange rows " << r << "," << z); break; }
    case 5: { std::string d; bool left = c.flag(); m.cells.clear(); for (std::size_t i = 0; i < m.rows; i++) { std::string row(m.naxis[0], ' '); m.cells.emplace_back(); for (auto& z : m.cols) { std::string x = i < 4 ? gen_ascii_text(c, z) : "7"; m.cells.back().push_back(x); row.replace(z.tbcol - 1 + (left ? 0 : z.width - x.size()), x.size(), x); } d += row; } t.set_data(d); PBT_SAY(c, "    set_data"); c.nontrivial(); break; }
    }
}
// number fields may be written in any notation with the same value (6 significant digits are kept by the library's text form)
static void compare_cell(const Col& q, const std::string& got, const std::string& want, std::size_t i, std::size_t r) {
    if (got == want) return;
    if (q.type == 'A' || q.type == 'I' || want.empty()) PBT_FAIL("HDU " << i << " row " << r << " column " << q.name << ": file has [" << got << "], expected [" << want << "]");
    std::string a = got, b = want; for (char& ch : a) if (ch == 'D') ch = 'E'; for (char& ch : b) if (ch == 'D') ch = 'E';
    char* e = 0; double x = std::strtod(a.c_str(), &e), y = std::strtod(b.c_str(), 0);
    PBT_CHECK(!a.empty() && *e == 0 && std::fabs(x - y) <= 1e-5 * std::fabs(y), "HDU " << i << " row " << r << " column " << q.name << ": file has [" << got << "], expected [" << want << "]");
}
static void compare_file(const std::string& b, const std::vector<Hdu>& f) {
    auto p = parse(b); PBT_EQ(p.size(), f.size(), "number of HDUs in the written file");
    for (std::size_t i = 0; i < f.size(); i++) {
        PBT_CHECK(p[i].cards == f[i].cards, "header of HDU " << i << " changed");
        for (char ch : p[i].fill) PBT_CHECK(ch == fill_of(f[i]), "fill bytes of HDU " << i << " (" << f[i].name() << ") are " << static_cast<int>(ch));
        if (f[i].kind == Hdu::PRIMARY) { PBT_CHECK(p[i].data == f[i].data, "primary data changed"); continue; }
        PBT_CHECK(f[i].heap.empty() || p[i].data.substr(f[i].rows * f[i].naxis[0]) == f[i].heap, "the heap of HDU " << i << " changed");
        for (std::size_t r = 0; r < f[i].rows; r++) {
            std::string row = p[i].data.substr(r * f[i].naxis[0], f[i].naxis[0]);
            for (std::size_t k = 0; k < f[i].cols.size(); k++) {
                const Col& q = f[i].cols[k];
                if (f[i].kind == Hdu::BINARY) { std::string x = row.substr(q.tbcol, q.width); PBT_CHECK(x == f[i].cells[r][k], "HDU " << i << " row " << r << " column " << q.name << ":" << q.tform << ": file has [" << pbt::printable(x) << "], expected [" << pbt::printable(f[i].cells[r][k]) << "]"); }
                else { compare_cell(q, trim(row.substr(q.tbcol - 1, q.width)), f[i].cells[r][k], i, r); row.replace(q.tbcol - 1, q.width, q.width, ' '); }
            }
            if (f[i].kind == Hdu::ASCII) PBT_CHECK(trim(row).empty(), "HDU " << i << " row " << r << ": text between the columns: [" << row << "]");
        }
    }
}
PBT_PROP(edit_write, 14000, 400000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 2500, 12)); std::size_t n = 1 + c.below(3);
    for (std::size_t i = 0; i < n; i++) f.push_back(c.flag() ? gen_binary(c, 6, 12, "LXBIJAEDCMP", true) : gen_ascii(c, 5, 8));
    describe(c, f);
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; const std::string src = bytes(f); write_file(a, src);
    auto x = bio::fits::open(a); std::size_t ops = 1 + c.below(12); std::vector<std::map<std::string, bool>> sc(f.size());
    for (std::size_t o = 0; o < ops; o++) {
        std::size_t i = 1 + c.below(f.size() - 1); Hdu& m = f[i]; if (m.rows == 0) continue;
        c.label(m.name());
        if (m.kind == Hdu::BINARY) edit_binary(c, bio::fits::convert_to<bio::binary_table>(x[static_cast<int>(i)]), m, sc[i]);
        else edit_ascii(c, bio::fits::convert_to<bio::ascii_table>(x[static_cast<int>(i)]), m);
        if (c.chance(1, 6)) { x.write_to(b); compare_file(read_file(b), f); c.label("written between edits"); }
    }
    x.write_to(b); compare_file(read_file(b), f);
    auto y = bio::fits::open(b); PBT_EQ(y.get_hdu_list().size(), f.size(), "HDUs when reopened");
    for (std::size_t i = 1; i < f.size(); i++) if (f[i].kind == Hdu::BINARY) check_cells(bio::fits::convert_to<bio::binary_table>(y[static_cast<int>(i)]), [&] { Hdu h = f[i]; if (h.data.empty()) h.rows = 0; return h; }());
    PBT_CHECK(read_file(a) == src, "the source file was modified");
}
// tables with more rows or columns than small counters hold
PBT_PROP(large_tables, 100, 2500) {
    std::vector<Hdu> f; { fitsgen::Large large(c); f.push_back(gen_primary(c, 500, 6)); f.push_back(c.flag() ? gen_binary(c, 2, 5, c.flag() ? "LXBA" : "IJE", true) : gen_ascii(c, 2, 5)); } Hdu& m = f[1]; describe(c, f); if (!m.rows) return;
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); auto x = bio::fits::open(a); std::map<std::string, bool> sc; c.label(m.name());
    for (std::size_t o = 0, n = 1 + c.below(6); o < n; o++) if (m.kind == Hdu::BINARY) edit_binary(c, bio::fits::convert_to<bio::binary_table>(x[1]), m, sc, false); else edit_ascii(c, bio::fits::convert_to<bio::ascii_table>(x[1]), m, false);
    x.write_to(b); compare_file(read_file(b), f);
}
// a text too long for its ASCII field is refused, never written over its neighbours
PBT_PROP(too_long_text_refused, 1500, 30000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 500, 5)); Hdu t = gen_ascii(c, 4, 6); if (!t.rows) return; f.push_back(t); describe(c, f);
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); auto x = bio::fits::open(a);
    std::size_t r = c.below(t.rows), k = c.below(t.cols.size()); std::string s(t.cols[k].width + 1 + c.below(5), 'x');
    PBT_SAY(c, "    row " << r << " column " << t.cols[k].name << " of width " << t.cols[k].width << " = " << s);
    bio::fits::convert_to<bio::ascii_table>(x[1]).get_data()[r][k] = s; c.nontrivial();
    try { x.write_to(b); } catch (boost::astronomy::fits_exception&) { return; }
    PBT_FAIL("a field longer than its column was written");
}

// a value with another number of elements than its binary field is refused when written: the rows behind it would be shifted
PBT_PROP(wrong_size_refused, 1500, 30000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 500, 5)); Hdu t = gen_binary(c, 4, 6); if (!t.rows) return; f.push_back(t); if (c.flag()) f.push_back(gen_ascii(c, 3, 4)); describe(c, f);
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); auto x = bio::fits::open(a); auto& bt = bio::fits::convert_to<bio::binary_table>(x[1]);
    std::size_t r = c.below(t.rows), k = c.below(t.cols.size()), w = t.cols[k].width, n = c.flag() || !w ? w + 1 + c.below(9) : c.below(w); std::string was = bt.get_data()[r][k];
    if (t.cols[k].type == 'J' && c.flag()) { n = t.cols[k].repeat + 1; bt.get_column<std::vector<boost::int32_t>>(t.cols[k].name)[static_cast<int>(r)] = std::vector<boost::int32_t>(n, 7); } else bt.get_data()[r][k] = std::string(n, 'x');
    PBT_SAY(c, "    row " << r << " column " << t.cols[k].name << " of " << w << " bytes: " << n); c.nontrivial(); c.label(n > w ? "longer" : "shorter");
    bool refused = false; try { x.write_to(b); } catch (boost::astronomy::fits_exception&) { refused = true; } PBT_CHECK(refused, "a field of another size than its column was written");
    bt.get_data()[r][k] = was; x.write_to(b); compare_file(read_file(b), f);
}

// rows or fields added or removed: the header announces another size, so the table is refused when written
template <class T> void reshape(Case& c, T& t, const Hdu& m) {
    auto& d = t.get_data(); std::size_t r = c.below(d.size()), n = 1 + c.below(3); c.nontrivial();
    switch (c.below(4)) {
    case 0: PBT_SAY(c, "    " << n << " rows added"); c.label("rows added"); for (std::size_t i = 0; i < n; i++) d.insert(d.begin() + static_cast<long>(c.below(d.size() + 1)), std::vector<std::string>(d[r])); break;
    case 1: if (c.flag()) { PBT_SAY(c, "    all rows removed"); d.clear(); } else { PBT_SAY(c, "    row " << r << " removed"); d.erase(d.begin() + static_cast<long>(r)); } c.label("rows removed"); break;
    case 2: PBT_SAY(c, "    row " << r << ": " << n << " fields added"); c.label("fields added"); for (std::size_t i = 0; i < n; i++) d[r].push_back(c.flag() ? std::string() : d[r][0]); break;
    default: PBT_SAY(c, "    row " << r << ": last field removed"); c.label("fields removed"); d[r].pop_back(); }
    (void)m;
}
// rows with bytes that belong to no column: kept as they are, or the file is refused when written
PBT_PROP(padded_rows, 1500, 30000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 500, 5)); Hdu t = gen_binary(c, 4, 6); if (!t.rows) return; std::size_t w = t.naxis[0], more = 1 + c.below(c.flag() ? 3 : 40); std::string fill(more, static_cast<char>(c.below(256))), d;
    for (std::size_t r = 0; r < t.rows; r++) d += t.data.substr(r * w, w) + fill; d += t.heap; t.data = d; t.naxis[0] = w + more;
    for (auto& k : t.cards) if (k.compare(0, 9, "NAXIS1  =") == 0) k = pad("NAXIS1  = " + rjust(num(static_cast<long long>(w + more)), 20), 80);
    f.push_back(t); if (c.flag()) f.push_back(gen_ascii(c, 3, 4)); describe(c, f); PBT_SAY(c, more << " bytes behind the columns of " << t.rows << " rows"); c.nontrivial();
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); auto x = bio::fits::open(a); auto& bt = bio::fits::convert_to<bio::binary_table>(x[1]);
    for (std::size_t r = 0; r < t.rows; r++) for (std::size_t k = 0; k < t.cols.size(); k++) PBT_CHECK(bt.get_data()[r][k] == t.cells[r][k], "row " << r << " column " << t.cols[k].name << " of a table with padded rows");
    bool refused = false; try { x.write_to(b); } catch (boost::astronomy::fits_exception&) { refused = true; }
    if (!refused) { compare_file(read_file(b), f); PBT_CHECK(parse(read_file(b))[1].data == t.data, "the bytes behind the columns changed"); }
}
// fields of an ASCII table may share characters: each keeps its text, or the file is refused when written
PBT_PROP(overlapping_fields, 1500, 30000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 500, 5)); Hdu t = gen_ascii(c, 4, 6); if (!t.rows || t.cols.size() < 2) return; std::size_t n = 1 + c.below(t.cols.size() - 1), shared = 0;
    for (std::size_t j = 0; j < n; j++) { std::size_t k = c.below(t.cols.size()); Col& q = t.cols[k]; q.tbcol = 1 + c.below(t.naxis[0] - q.width + 1); std::string key = pad("TBCOL" + num(static_cast<long long>(k + 1)), 8) + "="; for (auto& x : t.cards) if (x.compare(0, 9, key) == 0) x = pad(key + " " + rjust(num(static_cast<long long>(q.tbcol)), 20), 80); }
    for (std::size_t k = 0; k < t.cols.size(); k++) for (std::size_t j = 0; j < k; j++) if (t.cols[j].tbcol < t.cols[k].tbcol + t.cols[k].width && t.cols[k].tbcol < t.cols[j].tbcol + t.cols[j].width) shared++;
    for (std::size_t r = 0; r < t.rows; r++) for (std::size_t k = 0; k < t.cols.size(); k++) t.cells[r][k] = trim(t.data.substr(r * t.naxis[0] + t.cols[k].tbcol - 1, t.cols[k].width));
    f.push_back(t); describe(c, f); c.nontrivial(shared > 0); c.label(shared ? "overlap" : "moved, no overlap");
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); auto x = bio::fits::open(a); auto& at = bio::fits::convert_to<bio::ascii_table>(x[1]);
    for (std::size_t r = 0; r < t.rows; r++) for (std::size_t k = 0; k < t.cols.size(); k++) PBT_EQ(at.get_data()[r][k], t.cells[r][k], "row " << r << " column " << t.cols[k].name << " of a table with overlapping columns");
    bool refused = false; try { x.write_to(b); } catch (boost::astronomy::fits_exception&) { refused = true; } c.label(refused, "refused"); PBT_CHECK(!refused || shared, "a table without overlapping fields was refused");
    if (!refused) { auto p = parse(read_file(b)); PBT_EQ(p.size(), f.size(), "number of HDUs"); for (std::size_t r = 0; r < t.rows; r++) for (std::size_t k = 0; k < t.cols.size(); k++) PBT_EQ(trim(p[1].data.substr(r * t.naxis[0] + t.cols[k].tbcol - 1, t.cols[k].width)), t.cells[r][k], "row " << r << " column " << t.cols[k].name << " in the written file"); }
}
PBT_PROP(other_shape_refused, 2500, 50000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 500, 5)); Hdu t = c.flag() ? gen_binary(c, 4, 6) : gen_ascii(c, 4, 6); if (!t.rows || t.data.empty()) return; f.push_back(t); if (c.flag()) f.push_back(gen_ascii(c, 3, 4)); describe(c, f);
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); auto x = bio::fits::open(a);
    matrix* d = t.kind == Hdu::BINARY ? &bio::fits::convert_to<bio::binary_table>(x[1]).get_data() : &bio::fits::convert_to<bio::ascii_table>(x[1]).get_data(); matrix was = *d;
    if (t.kind == Hdu::BINARY) reshape(c, bio::fits::convert_to<bio::binary_table>(x[1]), t); else reshape(c, bio::fits::convert_to<bio::ascii_table>(x[1]), t);
    bool refused = false; try { x.write_to(b); } catch (boost::astronomy::fits_exception&) { refused = true; } PBT_CHECK(refused, "a table of another shape than its header announces was written");
    *d = was; x.write_to(b); compare_file(read_file(b), f);
}
