// C02: well-formed FITS files are read completely and at the right places.
#include "fitscheck.hpp"
using namespace fitscheck;
namespace pbt {
const char* const property_id = "C02";
const char* const property_rule = "well-formed FITS files (primary + 0..4 extensions: ASCII tables, binary tables, images and unknown extension types; exact-record headers and data; optional cards missing) read in both modes and by re-initialized readers, compared with the generating model: HDU list, headers, cells, pixels, byte offsets and lookups; non-trivial: at least two HDUs or data present";
}
typedef bio::fits_io<bio::fits_stream, bio::default_hdu_manager<bio::card_policy, bio::ascii_converter, bio::binary_data_converter>> reader_t;

static Hdu gen_other(Case& c) {
    Hdu h = gen_image(c, 3000); h.kind = Hdu::OTHER;
    h.xtension = c.pick<std::string>({"FOREIGN", "A3DTABLE", "DUMP", "TABLE2", "BIN"});
    h.cards[0] = card("XTENSION", quote(pad(h.xtension, 8))); h.values["XTENSION"].s = h.xtension;
    if (!h.naxis.empty() && c.chance(1, 3)) { std::size_t n = c.size(3000); h.heap = payload(c, n * elem(h.bitpix)); h.data += h.heap; for (auto& k : h.cards) if (k.compare(0, 8, "PCOUNT  ") == 0) k = card("PCOUNT", rjust(num(static_cast<long long>(n)), 20)); h.values["PCOUNT"].i = static_cast<long long>(n); }
    return h;
}
// Files whose extension types are distinct when `unique`; images and unknown types are skipped, not decoded.
static std::vector<Hdu> gen(Case& c, bool unique, std::size_t max_ext = 4) {
    allow_unnamed() = true; std::vector<Hdu> v; v.push_back(gen_primary(c)); std::size_t n = c.below(max_ext + 1); std::set<std::string> seen;
    for (std::size_t i = 0; i < n; i++) {
        Hdu h; switch (c.below(6)) { case 0: case 1: h = gen_ascii(c); break; case 2: case 3: h = gen_binary(c, 8, 40, "LXBIJAEDCMP", true); break; case 4: h = gen_image(c); break; default: h = gen_other(c); }
        if (unique && !seen.insert(h.name()).second) break;
        v.push_back(h);
    }
    c.nontrivial(v.size() > 1 || !v[0].data.empty());
    for (auto& h : v) { c.label(h.name()); c.label(!h.data.empty() && h.data.size() % REC == 0, "exact data"); c.label((h.cards.size() + 1) % 36 == 0, "exact header"); c.label(h.data.empty(), "no data"); }
    describe(c, v); return v;
}
static std::string any_fill(Case& c, const std::vector<Hdu>& f) {   // FITS readers must not look at the fill bytes
    std::string s; for (auto& h : f) { s += header_bytes(h); s += data_bytes(h, c.below(3) ? fill_of(h) : c.pick({' ', '\0', 'E'})); } return s;
}
template <class T, class E> void wrong_type(E& e, bool right, std::size_t i) { bool thrown = false; try { const T& t = bio::fits::convert_to<T>(e); PBT_CHECK(&t == boost::get<T>(&e), "convert_to returns another object than HDU " << i); } catch (std::exception&) { thrown = true; } PBT_EQ(thrown, !right, "error reported by convert_to of HDU " << i); }
static void check_all(reader_t& x, const std::vector<Hdu>& f, bool with_data) {
    auto list = x.get_hdu_list(); PBT_EQ(list.size(), f.size(), "number of HDUs");
    for (std::size_t i = 0; i < f.size(); i++) {
        if (f[i].kind == Hdu::IMAGE || f[i].kind == Hdu::OTHER) { PBT_CHECK(boost::get<boost::blank>(&x[static_cast<int>(i)]) || f[i].kind == Hdu::IMAGE, "HDU " << i << " of an unknown type is presented as another HDU"); PBT_CHECK(!boost::get<bio::primary_hdu>(&x[static_cast<int>(i)]) && !boost::get<bio::ascii_table>(&x[static_cast<int>(i)]) && !boost::get<bio::binary_table>(&x[static_cast<int>(i)]), "HDU " << i << " (" << f[i].name() << ") is presented as another kind of HDU"); continue; }
        check_hdu(x[static_cast<int>(i)], f[i], with_data); check_hdu(list[i], f[i], with_data);
    }
    for (int bad : {-1, static_cast<int>(f.size()), static_cast<int>(f.size()) + 7}) {
        bool thrown = false; try { x[bad]; } catch (std::out_of_range&) { thrown = true; }
        PBT_CHECK(thrown, "index " << bad << " of " << f.size() << " HDUs is not reported as std::out_of_range");
    }
    std::set<std::string> names, tries = {"NO SUCH HDU", "", " ", "primary", "PRIMARY", "SIMPLE", "TABLE", "BINTABLE", "IMAGE", "EXTNAME", "0", "1"};
    for (auto& h : f) { std::string n = h.name(); names.insert(n); tries.insert(n + " "); tries.insert(" " + n); tries.insert(n + "2"); tries.insert(n.substr(1)); tries.insert(n.substr(0, n.size() - 1)); std::string l = n; for (char& ch : l) ch = static_cast<char>(std::tolower(ch)); tries.insert(l); }
    for (auto& n : tries) { if (names.count(n)) continue; bool thrown = false; try { x[n]; } catch (std::out_of_range&) { thrown = true; } PBT_CHECK(thrown, "the HDU name [" << n << "] that does not occur is not reported as std::out_of_range"); }
    for (std::size_t i = 0; i < f.size(); i++) { wrong_type<bio::primary_hdu>(x[static_cast<int>(i)], f[i].kind == Hdu::PRIMARY, i); wrong_type<bio::ascii_table>(x[static_cast<int>(i)], f[i].kind == Hdu::ASCII, i); wrong_type<bio::binary_table>(x[static_cast<int>(i)], f[i].kind == Hdu::BINARY, i); }
}
static void check_places(reader_t& x, const std::vector<Hdu>& f, const std::string& path, bool with_data) {
    auto cb = x.get_control_block_info(); PBT_EQ(cb.filepath, path, "path in the control block");
    std::size_t at = 0; std::map<std::string, int> times; for (auto& h : f) times[h.name()]++; if (times.size() == f.size()) PBT_EQ(cb.total_hdus(), f.size(), "total_hdus");
    for (std::size_t i = 0; i < f.size(); i++) {
        std::size_t h = header_bytes(f[i]).size(), d = data_bytes(f[i], ' ').size();
        if (times[f[i].name()] > 1) { at += h + d; continue; }   // known finding same_type_twice
        PBT_CHECK(cb.hdus_info.count(f[i].name()), "no control block entry for " << f[i].name());
        auto in = cb.hdus_info[f[i].name()];
        PBT_EQ(in.header_location, at, "header offset of HDU " << i << " (" << f[i].name() << ")");
        PBT_EQ(in.data_location, at + h, "data offset of HDU " << i << " (" << f[i].name() << ")");
        PBT_EQ(in.hdu_index, i, "index of HDU " << f[i].name());
        if (f[i].kind != Hdu::IMAGE && f[i].kind != Hdu::OTHER) check_hdu(x[f[i].name()], f[i], with_data);
        PBT_CHECK(&x[f[i].name()] == &x[static_cast<int>(i)], "lookup of " << f[i].name() << " by name and by index give different objects");
        at += h + d;
    }
}

PBT_PROP(contents, 9000, 300000) {
    auto f = gen(c, false); std::string p = c.dir + "/a.fits"; write_file(p, any_fill(c, f));
    bool data = c.flag(); c.label(data ? "entire" : "headers only");
    auto x = bio::fits::open(p, data ? bio::reading_options::read_entire_hdus : bio::reading_options::read_only_headers);
    check_all(x, f, data);
}
PBT_PROP(places, 9000, 300000) {
    auto f = gen(c, c.flag()); std::string p = c.dir + "/a.fits"; write_file(p, any_fill(c, f));
    bool data = c.flag();
    auto x = bio::fits::open(p, data ? bio::reading_options::read_entire_hdus : bio::reading_options::read_only_headers);
    check_places(x, f, p, data); check_all(x, f, data);
}
// HDUs of several gigabytes (sparse files): the headers behind them are found
// (discarded where the scratch place has no sparse files)
PBT_PROP(large, 400, 10000) {
    pbt::sparse_files lifted;
    std::string p = c.dir + "/big.fits", b; std::vector<std::size_t> at, dat; std::vector<Hdu> f; std::size_t pos = 0; std::size_t n = 1 + c.below(3), table = n > 1 && c.flag() ? 1 + c.below(n - 1) : n; int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); PBT_CHECK(fd >= 0, "scratch file");
    for (std::size_t i = 0; i <= n; i++) {
        Hdu h; std::size_t size = 0; bool last = i == n; if (last) h = table == n ? gen_binary(c, 3, 5) : gen_ascii(c, 3, 5); else if (i == table) {   // a table with gigabytes of rows or of heap
            h.kind = Hdu::BINARY; h.xtension = "BINTABLE"; put_s(h, "XTENSION", "BINTABLE"); bool heap = c.flag(); std::size_t w = 1 + c.below(300), q = c.pick({std::size_t(1) << 31, std::size_t(1) << 32, std::size_t(3000000000u), std::size_t(2147483647u)}); h.naxis = {w, heap ? 1 + c.below(9) : q / w + c.below(3)}; axes_cards(h); std::size_t pc = heap ? q + c.below(3) : 0;
            put_i(h, "PCOUNT", static_cast<long long>(pc)); put_i(h, "GCOUNT", 1); put_i(h, "TFIELDS", 1); put_s(h, "TFORM1", num(static_cast<long long>(w)) + "B"); put_s(h, "TTYPE1", "v"); extra_cards(c, h, 20); size = product(h.naxis) + pc; c.label(heap ? "large heap" : "large table"); }
        else {
            h.kind = i ? Hdu::OTHER : Hdu::PRIMARY; h.xtension = i ? "BIG" + num(static_cast<long long>(i)) : ""; h.bitpix = c.pick({8, 16, 32, -32, -64}); std::size_t e = elem(h.bitpix);
            std::size_t a = 1 + c.below(70000), q = c.pick({std::size_t(1) << 31, std::size_t(1) << 32, std::size_t(3000000000u), std::size_t(1) << 33, std::size_t(20000)}); h.naxis = {a, q / a / e + c.below(3)}; if (c.flag()) std::swap(h.naxis[0], h.naxis[1]);
            if (i) put_s(h, "XTENSION", h.xtension); else put_b(h, "SIMPLE", true); axes_cards(h); if (i) { put_i(h, "PCOUNT", 0); put_i(h, "GCOUNT", 1); } else { h.has_extend = h.extend = true; put_b(h, "EXTEND", true); } extra_cards(c, h, 20); size = product(h.naxis) * e; }
        at.push_back(pos); std::string s = header_bytes(h); if (last) s += data_bytes(h, '\0'); if (::pwrite(fd, s.data(), s.size(), static_cast<off_t>(pos)) != static_cast<ssize_t>(s.size())) { ::close(fd); throw pbt::Discard(); } dat.push_back(pos + header_bytes(h).size()); pos += s.size() + (size + REC - 1) / REC * REC; f.push_back(h);
    }
    if (::ftruncate(fd, static_cast<off_t>(pos)) != 0) { ::close(fd); throw pbt::Discard(); }
    ::close(fd); describe(c, f); c.nontrivial(pos > (std::size_t(1) << 31)); c.label(pos > (std::size_t(1) << 32), "beyond 4 GB");
    auto x = bio::fits::open(p, bio::reading_options::read_only_headers); auto cb = x.get_control_block_info(); PBT_EQ(x.get_hdu_list().size(), f.size(), "number of HDUs");
    for (std::size_t i = 0; i < f.size(); i++) { auto in = cb.hdus_info[f[i].name()]; PBT_EQ(in.header_location, at[i], "header offset of HDU " << i); PBT_EQ(in.data_location, dat[i], "data offset of HDU " << i); PBT_EQ(in.hdu_index, i, "index of HDU " << i); }
    check_hdu(x[0], f[0], false); check_hdu(x[static_cast<int>(n)], f[n], false);
}
// dozens of HDUs of as many types
PBT_PROP(many_hdus, 500, 12000) {
    allow_unnamed() = true; std::vector<Hdu> f; f.push_back(gen_primary(c, 300, 4)); std::size_t n = 8 + c.below(50), ta = c.below(n), tb = c.below(n);
    for (std::size_t i = 0; i < n; i++) { if (i == ta) { f.push_back(gen_ascii(c, 2, 3)); continue; } if (i == tb) { f.push_back(gen_binary(c, 2, 3)); continue; }
        Hdu h = gen_image(c, 200); h.kind = Hdu::OTHER; h.xtension = (c.flag() ? "T" : "OTHER-") + num(static_cast<long long>(i)); h.cards[0] = card("XTENSION", quote(pad(h.xtension, 8))); h.values["XTENSION"].s = h.xtension; f.push_back(h); }
    describe(c, f); c.nontrivial(); bool data = c.flag(); std::string p = c.dir + "/a.fits"; write_file(p, any_fill(c, f)); auto x = bio::fits::open(p, data ? bio::reading_options::read_entire_hdus : bio::reading_options::read_only_headers);
    check_places(x, f, p, data); check_all(x, f, data);
}
// both modes describe the same file in the same way
PBT_PROP(modes_agree, 2500, 60000) {
    auto f = gen(c, false); std::string p = c.dir + "/a.fits"; write_file(p, bytes(f));
    auto x = bio::fits::open(p), y = bio::fits::open(p, bio::reading_options::read_only_headers);
    PBT_EQ(x.get_hdu_list().size(), y.get_hdu_list().size(), "HDU count of the two modes");
    auto a = x.get_control_block_info().hdus_info, b = y.get_control_block_info().hdus_info;
    PBT_EQ(a.size(), b.size(), "control block entries of the two modes");
    for (auto& e : a) { PBT_CHECK(b.count(e.first), "header-only mode misses " << e.first); PBT_EQ(b[e.first].header_location, e.second.header_location, e.first << " header offset"); PBT_EQ(b[e.first].data_location, e.second.data_location, e.first << " data offset"); PBT_EQ(b[e.first].hdu_index, e.second.hdu_index, e.first << " index"); }
    write_file(p, "");   // headers stay available without the file
    check_all(y, f, false);
}
// one reader object, a sequence of files and modes: only the last file counts
PBT_PROP(reinitialize, 2500, 60000) {
    reader_t x; std::size_t n = 2 + c.below(3);
    for (std::size_t k = 0; k < n; k++) {
        auto f = gen(c, true, 2); std::string p = c.dir + "/f" + num(static_cast<long long>(k)) + ".fits"; write_file(p, any_fill(c, f));
        x.initialize(p); PBT_EQ(x.get_hdu_list().size(), std::size_t(0), "HDUs after initialize()"); PBT_EQ(x.get_control_block_info().total_hdus(), std::size_t(0), "control block entries after initialize()");
        bool data = c.flag(); if (data) x.read_entire_hdus(); else x.read_only_headers();
        check_places(x, f, p, data); check_all(x, f, data);
        PBT_SAY(c, "  -- file " << k << (data ? " entire" : " headers only"));
    }
    bool thrown = false; try { x.initialize(c.dir + "/missing.fits"); } catch (boost::astronomy::file_reading_exception&) { thrown = true; }
    PBT_CHECK(thrown, "opening a missing file is not reported as file_reading_exception");
}
PBT_KNOWN(same_type_twice, "control block with two extensions of the same type") {
    std::vector<Hdu> f; Hdu p; put_b(p, "SIMPLE", true); axes_cards(p); put_b(p, "EXTEND", true); f.push_back(p);
    for (int i = 0; i < 2; i++) { Hdu t; t.kind = Hdu::BINARY; t.xtension = "BINTABLE"; t.naxis = {1, 1}; put_s(t, "XTENSION", "BINTABLE"); axes_cards(t); put_i(t, "PCOUNT", 0); put_i(t, "GCOUNT", 1); put_i(t, "TFIELDS", 1); put_s(t, "EXTNAME", i ? "B" : "A"); put_s(t, "TFORM1", "1B"); put_s(t, "TTYPE1", "v"); t.data = "x"; f.push_back(t); }
    std::string a = c.dir + "/a.fits"; write_file(a, bytes(f)); auto x = bio::fits::open(a);
    PBT_EQ(x.get_control_block_info().total_hdus(), std::size_t(3), "total_hdus of a file with three HDUs");
}
