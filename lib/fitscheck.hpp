// Compares what the library reports about an HDU with the independent model.
#pragma once
#include "fitsgen.hpp"
#include <boost/astronomy/io/fits.hpp>

namespace fitscheck {
using namespace fitsgen;
namespace bio = boost::astronomy::io;
typedef bio::header<bio::card_policy> header_t;

template <class T> T be(const std::string& s, std::size_t at) {   // big endian decode, byte by byte
    typedef typename std::conditional<sizeof(T) == 1, std::uint8_t, typename std::conditional<sizeof(T) == 2, std::uint16_t, typename std::conditional<sizeof(T) == 4, std::uint32_t, std::uint64_t>::type>::type>::type U;
    U u = 0; for (std::size_t i = 0; i < sizeof(T); i++) u = static_cast<U>((static_cast<std::uint64_t>(u) << 8) | static_cast<unsigned char>(s.at(at + i)));
    T v; std::memcpy(&v, &u, sizeof v); return v;
}
template <class T> std::string to_be(T v) {
    typedef typename std::conditional<sizeof(T) == 1, std::uint8_t, typename std::conditional<sizeof(T) == 2, std::uint16_t, typename std::conditional<sizeof(T) == 4, std::uint32_t, std::uint64_t>::type>::type>::type U;
    U u; std::memcpy(&u, &v, sizeof u); std::string s(sizeof u, 0); for (std::size_t i = 0; i < sizeof u; i++) s[i] = static_cast<char>((u >> (8 * (sizeof u - 1 - i))) & 255); return s;
}
template <class T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }   // bitwise: NaNs compare too

inline int bitpix_number(bio::bitpix b) { switch (b) { case bio::bitpix::B8: return 8; case bio::bitpix::B16: return 16; case bio::bitpix::B32: return 32; case bio::bitpix::_B32: return -32; default: return -64; } }

inline void check_value(header_t& h, const std::string& key, const Val& v) {
    switch (v.kind) {
    case 'i': PBT_EQ(h.value_of<long long>(key), v.i, "value of " << key);
        if (v.i >= -2147483647LL && v.i <= 2147483647LL) PBT_EQ(static_cast<long long>(h.value_of<int>(key)), v.i, "value of " << key << " as int");
        break;
    case 'f': { double d = h.value_of<double>(key); PBT_CHECK(d == v.f, "value of " << key << " (" << v.text << "): got " << d << ", expected " << v.f); break; }
    case 'b': PBT_EQ(h.value_of<bool>(key), v.b, "value of " << key); break;
    default: PBT_CHECK(h.value_of<std::string>(key) == v.s, "value of " << key << ": got [" << h.value_of<std::string>(key) << "], expected [" << v.s << "]");
    }
}

inline void check_header(header_t h, const Hdu& m) {
    PBT_EQ(h.card_count(), m.cards.size(), m.name() << " card_count");
    PBT_EQ(bitpix_number(h.bitpix()), m.bitpix, m.name() << " bitpix");
    PBT_CHECK(h.all_naxis() == m.naxis, m.name() << " naxis values differ");
    PBT_EQ(h.total_dimensions(), m.naxis.size(), m.name() << " total_dimensions");
    for (std::size_t i = 0; i < m.naxis.size(); i++) PBT_EQ(h.naxis(i + 1), m.naxis[i], m.name() << " naxis(" << i + 1 << ")");
    PBT_EQ(h.data_size(), product(m.naxis), m.name() << " data_size");
    PBT_EQ(h.get_hdu_name(), m.name(), "HDU name");
    for (auto& kv : m.values) { PBT_CHECK(h.contains_keyword(kv.first), "keyword " << kv.first << " not found"); check_value(h, kv.first, kv.second); }
}

template <bio::bitpix B, class Image> void check_pixels(Image img, const Hdu& m) {
    typedef typename bio::bitpix_type<B>::underlying_type T;
    std::size_t n = product(m.naxis);
    PBT_EQ(img.size(), n, "number of pixels");
    PBT_CHECK(img.write_image() == m.data, "image bytes differ from the file's data bytes");
    if (!n) return;
    std::size_t w = m.naxis[0], rows = n / w;
    for (std::size_t r = 0; r < rows; r++) {
        if (rows > 40 && r > 10 && r < rows - 10) continue;
        for (std::size_t k = 0; k < w; k++) { if (w > 60 && k > 20 && k < w - 20 && k % 53) continue;
            T got = img(r, k), want = be<T>(m.data, (r * w + k) * sizeof(T));
            PBT_CHECK(same(got, want), "pixel " << k << " of row " << r << ": got " << +got << ", expected " << +want); }
    }
}

template <class H> void check_image(H& p, const Hdu& m, bool with_data) {
    switch (m.bitpix) {
#define FC_CASE(n, B) case n: if (with_data) check_pixels<bio::bitpix::B>(p.template get_data<bio::bitpix::B>(), m); else PBT_EQ(p.template get_data<bio::bitpix::B>().size(), std::size_t(0), "pixels although only headers were read"); break;
    FC_CASE(8, B8) FC_CASE(16, B16) FC_CASE(32, B32) FC_CASE(-32, _B32) FC_CASE(-64, _B64)
#undef FC_CASE
    }
}

inline void check_meta(const bio::column& q, const Col& k, std::size_t i, bool ascii) {
    PBT_EQ(q.index(), i + 1, "column index of " << k.name); PBT_EQ(q.TTYPE(), k.name, "TTYPE"); PBT_EQ(q.TFORM(), k.tform, "TFORM of " << k.name);
    PBT_EQ(q.TBCOL(), k.tbcol, "TBCOL of " << k.name);
    PBT_EQ(q.TUNIT(), k.has_unit ? k.unit : std::string(), "TUNIT of " << k.name);
    PBT_EQ(q.TSCAL(), k.has_scale ? k.scale : 1.0, "TSCAL of " << k.name); PBT_EQ(q.TZERO(), k.has_zero ? k.zero : 0.0, "TZERO of " << k.name);
    if (!ascii) { PBT_EQ(q.TDISP(), k.has_disp ? k.disp : std::string(), "TDISP of " << k.name); PBT_EQ(q.TDIM(), k.has_dim ? k.dim : std::string(), "TDIM of " << k.name); }
}

template <class Table> void check_cells(Table& t, const Hdu& m) {
    auto& d = t.get_data(); PBT_EQ(d.size(), m.rows, "number of rows");
    for (std::size_t r = 0; r < m.rows; r++) { PBT_EQ(d[r].size(), m.cols.size(), "fields in row " << r);
        for (std::size_t k = 0; k < m.cols.size(); k++) PBT_CHECK(d[r][k] == m.cells[r][k], "row " << r << " column " << m.cols[k].name << ": got [" << pbt::printable(d[r][k]) << "], expected [" << pbt::printable(m.cells[r][k]) << "]"); }
}
template <class Table> void check_table(Table& t, const Hdu& m, bool with_data) {
    for (std::size_t i = 0; i < m.cols.size(); i++) if (m.cols[i].has_name) check_meta(t.get_column_metadata(m.cols[i].name), m.cols[i], i, m.kind == Hdu::ASCII);
    if (with_data && !m.data.empty()) check_cells(t, m); else PBT_EQ(t.get_data().size(), std::size_t(0), "rows although there is no data");
}

// one HDU of an opened file against its model
template <class Ext> void check_hdu(Ext& e, const Hdu& m, bool with_data) {
    switch (m.kind) {
    case Hdu::PRIMARY: { auto& p = bio::fits::convert_to<bio::primary_hdu>(e); check_header(p.get_header(), m); PBT_EQ(p.is_simple(), m.values.at("SIMPLE").b, "is_simple"); PBT_EQ(p.is_extended(), m.extend, "is_extended"); check_image(p, m, with_data); break; }
    case Hdu::ASCII: { auto& t = bio::fits::convert_to<bio::ascii_table>(e); check_header(t.get_header(), m); check_table(t, m, with_data); break; }
    case Hdu::BINARY: { auto& t = bio::fits::convert_to<bio::binary_table>(e); check_header(t.get_header(), m); check_table(t, m, with_data); break; }
    default: break;   // not represented by the library (known finding C01/image_extension)
    }
}

inline std::vector<Hdu> gen_file(Case& c, std::size_t max_ext = 3, bool allow_duplicates = true) {
    std::vector<Hdu> v; v.push_back(gen_primary(c));
    std::size_t n = c.below(max_ext + 1); bool a = false, b = false;
    for (std::size_t i = 0; i < n; i++) {
        bool bin = c.flag();
        if (!allow_duplicates && (bin ? b : a)) bin = !bin;
        if (!allow_duplicates && (bin ? b : a)) break;
        (bin ? b : a) = true;
        v.push_back(bin ? gen_binary(c, 8, 40, "LXBIJAEDCMP", true) : gen_ascii(c));
    }
    return v;
}
inline void describe(Case& c, const std::vector<Hdu>& f) { if (c.describe) for (auto& h : f) c.say_s("  " + summary(h)); }
} // namespace fitscheck
