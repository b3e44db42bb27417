// C01: opening a FITS file and writing it to another file preserves every HDU.
#include "fitscheck.hpp"
using namespace fitscheck;
namespace pbt {
const char* const property_id = "C01";
const char* const property_rule = "FITS files (primary + 0..3 tables; all BITPIX, NAXIS 0..4, random typed cards, gaps between ASCII columns, all binary column types, white-space heavy payloads, a third with headers/data that fill their records exactly) are written by an independent serializer, opened, written with write_to, and re-opened; non-trivial: at least one HDU has data";
}
static void describe_file(Case& c, const std::vector<Hdu>& f) { describe(c, f); for (auto& h : f) { c.nontrivial(!h.data.empty()); c.label(h.name()); c.label(!h.data.empty() && h.data.size() % REC == 0, "exact data"); c.label((h.cards.size() + 1) % 36 == 0, "exact header"); } }

static void compare_written(const std::string& written, const std::vector<Hdu>& f) {
    std::vector<Parsed> p = parse(written);
    PBT_EQ(p.size(), f.size(), "number of HDUs in the written file");
    for (std::size_t i = 0; i < f.size(); i++) {
        PBT_CHECK(p[i].cards == f[i].cards, "header cards of HDU " << i << " differ in the written file");
        if (f[i].kind != Hdu::ASCII) PBT_CHECK(p[i].data == f[i].data, "data bytes of HDU " << i << " differ in the written file");
        else for (std::size_t r = 0; r < f[i].rows; r++) for (std::size_t k = 0; k < f[i].cols.size(); k++) {
            const Col& q = f[i].cols[k]; std::string cell = trim(p[i].data.substr(r * f[i].naxis[0] + q.tbcol - 1, q.width));
            PBT_CHECK(cell == f[i].cells[r][k], "HDU " << i << " row " << r << " column " << q.name << ": written [" << cell << "], expected [" << f[i].cells[r][k] << "]"); }
    }
}

PBT_PROP(open_write_open, 16000, 400000) {
    allow_unnamed() = true; std::vector<Hdu> f = gen_file(c); describe_file(c, f);
    std::string a = c.dir + "/" + c.pick<std::string>({"a.fits", "a", "x y.fit", "a.fits.gz", "\xc3\xa4.FTS", "a[1]?*.fits"}), b = c.dir + "/" + c.pick<std::string>({"b.fits", "b", "! b.fit", "b.txt", "\xc3\xb6.FTS", "b[0]*.fits"});
    write_file(a, bytes(f));
    { auto x = bio::fits::open(a); PBT_EQ(x.get_hdu_list().size(), f.size(), "number of HDUs read"); x.write_to(b); }
    compare_written(read_file(b), f);
    auto y = bio::fits::open(b);
    PBT_EQ(y.get_hdu_list().size(), f.size(), "number of HDUs read back");
    for (std::size_t i = 0; i < f.size(); i++) check_hdu(y[static_cast<int>(i)], f[i], true);
}

// rows that 16 bits cannot count, hundreds of columns
PBT_PROP(large_tables, 150, 4000) {
    std::vector<Hdu> f; { fitsgen::Large large(c); f.push_back(gen_primary(c, 500, 8)); f.push_back(c.flag() ? gen_binary(c, 2, 5, c.flag() ? "LXBA" : "IJE", true) : gen_ascii(c, 2, 5)); } describe_file(c, f);
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); { auto x = bio::fits::open(a); x.write_to(b); }
    compare_written(read_file(b), f);
}

// dozens of HDUs
PBT_PROP(many_hdus, 400, 10000) {
    allow_unnamed() = true; std::vector<Hdu> f; f.push_back(gen_primary(c, 300, 4)); std::size_t n = 8 + c.below(50); for (std::size_t i = 0; i < n; i++) f.push_back(c.flag() ? gen_binary(c, 2, 3, "LBIJAEDP", true) : gen_ascii(c, 2, 3)); describe_file(c, f); c.nontrivial();
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); { auto x = bio::fits::open(a); PBT_EQ(x.get_hdu_list().size(), f.size(), "number of HDUs read"); x.write_to(b); } compare_written(read_file(b), f);
}
// tens of megabytes in one image, one row or one heap
PBT_PROP(huge_data, 16, 160) {
    const std::size_t mb = std::size_t(1) << 20; std::size_t n = c.pick({3 * mb, 16 * mb, 20 * mb}) + c.below(9) - 4; int what = static_cast<int>(c.below(3)); std::string unit = c.bulk(3001 + c.below(900)), data; while (data.size() < n) data += unit; data.resize(n);
    std::vector<Hdu> f; Hdu p; p.bitpix = 8; if (what == 0) { p.naxis = {n}; p.data = data; } put_b(p, "SIMPLE", true); axes_cards(p); f.push_back(p);
    Hdu t; t.kind = Hdu::BINARY; t.xtension = "BINTABLE"; t.bitpix = 8; std::size_t w = what == 1 ? n : 6; t.rows = 1; t.naxis = {w, 1}; put_s(t, "XTENSION", "BINTABLE"); axes_cards(t); put_i(t, "PCOUNT", what == 2 ? static_cast<long long>(n) : 0); put_i(t, "GCOUNT", 1); put_i(t, "TFIELDS", 1); put_s(t, "TFORM1", num(static_cast<long long>(w)) + "B"); t.data = what == 1 ? data : std::string("\0row\n ", 6) + (what == 2 ? data : ""); f.push_back(t); f.push_back(gen_ascii(c, 2, 3));
    PBT_SAY(c, (what == 0 ? "image" : what == 1 ? "row" : "heap") << " of " << n << " bytes"); c.label(what == 0 ? "image" : what == 1 ? "row" : "heap"); c.nontrivial();
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); { auto x = bio::fits::open(a); PBT_EQ(x.get_hdu_list().size(), f.size(), "number of HDUs read"); x.write_to(b); } compare_written(read_file(b), f);
}
// tables whose rows have no bytes, or that have no rows, with and without a heap
PBT_PROP(empty_tables, 2000, 50000) {
    std::vector<Hdu> f; f.push_back(gen_primary(c, 300, 4)); std::size_t n = 1 + c.below(3);
    for (std::size_t i = 0; i < n; i++) { if (c.chance(1, 4)) { f.push_back(gen_ascii(c, 2, 3)); continue; }
        Hdu t; t.kind = Hdu::BINARY; t.xtension = "BINTABLE"; t.bitpix = 8; std::size_t nf = c.below(4), w = 0; std::vector<std::pair<std::string, std::size_t>> fm; bool norows = c.flag(); for (std::size_t k = 0; k < nf; k++) { fm.push_back(norows ? c.pick<std::pair<std::string, std::size_t>>({{"1J", 4}, {"3A", 3}, {"0D", 0}, {"9X", 2}, {"1PJ(3)", 8}}) : c.pick<std::pair<std::string, std::size_t>>({{"0J", 0}, {"0A", 0}, {"0D", 0}, {"0X", 0}, {"0L", 0}, {"0C", 0}})); w += fm.back().second; }
        t.rows = norows ? 0 : c.below(9); t.naxis = {w, t.rows}; std::size_t heap = c.flag() ? c.pick<std::size_t>({1, 7, 2879, 2880, 2881}) : 0; put_s(t, "XTENSION", "BINTABLE"); axes_cards(t); put_i(t, "PCOUNT", static_cast<long long>(heap)); put_i(t, "GCOUNT", 1); put_i(t, "TFIELDS", static_cast<long long>(nf)); for (std::size_t k = 0; k < nf; k++) { std::string q = num(static_cast<long long>(k + 1)); put_s(t, "TFORM" + q, fm[k].first); if (c.flag()) put_s(t, "TTYPE" + q, "c" + q); }
        t.data = c.bulk(heap); f.push_back(t); c.label(heap ? "heap" : "no heap"); c.label(norows ? "no rows" : "rows of no bytes"); c.nontrivial(t.rows > 0 || heap); }
    describe(c, f); std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); { auto x = bio::fits::open(a); PBT_EQ(x.get_hdu_list().size(), f.size(), "number of HDUs read"); x.write_to(b); } compare_written(read_file(b), f);
}
// n generations of open + write_to are all identical from the first written one on, and writing changes neither
// the opened object nor the source file
PBT_PROP(generations, 3000, 80000) {
    allow_unnamed() = true; std::vector<Hdu> f = gen_file(c); describe_file(c, f);
    std::string src = bytes(f), p0 = c.dir + "/g0.fits"; write_file(p0, src);
    std::string prev; std::size_t n = 2 + c.below(3);
    for (std::size_t g = 1; g <= n; g++) {
        std::string in = c.dir + "/g" + num(static_cast<long long>(g) - 1) + ".fits", out = c.dir + "/g" + num(static_cast<long long>(g)) + ".fits", again = c.dir + "/again.fits";
        auto x = bio::fits::open(in); x.write_to(out); x.write_to(again);
        std::string o = read_file(out); PBT_CHECK(o == read_file(again), "writing the same object twice gives different files (generation " << g << ")");
        for (std::size_t i = 0; i < f.size(); i++) check_hdu(x[static_cast<int>(i)], f[i], true);
        if (g > 1) PBT_CHECK(o == prev, "generation " << g << " differs from generation " << g - 1);
        prev = o;
    }
    PBT_CHECK(read_file(p0) == src, "the source file was modified");
}

// a file is overwritten completely, whatever was there before
PBT_PROP(overwrites_longer_file, 1500, 30000) {
    std::vector<Hdu> f = gen_file(c, 1); describe_file(c, f);
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); write_file(b, c.bulk(1 + c.below(40000)));
    { auto x = bio::fits::open(a); x.write_to(b); }
    compare_written(read_file(b), f);
}

PBT_KNOWN(image_extension, "IMAGE extensions are dropped by write_to") {
    std::vector<Hdu> f; Hdu p; p.naxis = {}; put_b(p, "SIMPLE", true); axes_cards(p); put_b(p, "EXTEND", true); f.push_back(p);
    Hdu im; im.kind = Hdu::IMAGE; im.xtension = "IMAGE"; im.bitpix = 16; im.naxis = {2, 2}; put_s(im, "XTENSION", "IMAGE"); axes_cards(im); put_i(im, "PCOUNT", 0); put_i(im, "GCOUNT", 1); put_s(im, "EXTNAME", "I"); im.data = "abcdefgh"; f.push_back(im);
    std::string a = c.dir + "/a.fits", b = c.dir + "/b.fits"; write_file(a, bytes(f)); { auto x = bio::fits::open(a); x.write_to(b); }
    PBT_EQ(parse(read_file(b)).size(), std::size_t(2), "number of HDUs written");
}
