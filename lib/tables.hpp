// Independent codecs of binary-table field types, and dispatch from a column's format to its view type.
#pragma once
#include "fitscheck.hpp"
#include <complex>

namespace tables {
using namespace fitscheck;

// ---- independent big-endian codec --------------------------------------------------------------------
template <class T> struct codec { static const std::size_t width = sizeof(T); static T dec(const std::string& s, std::size_t at) { return be<T>(s, at); } static std::string enc(T v) { return to_be(v); } };
template <> struct codec<bool> { static const std::size_t width = 1; static bool dec(const std::string& s, std::size_t at) { return s.at(at) == 'T'; } static std::string enc(bool v) { return v ? "T" : "F"; } };
template <class T> struct codec<std::complex<T>> { static const std::size_t width = 2 * sizeof(T); static std::complex<T> dec(const std::string& s, std::size_t at) { T re = be<T>(s, at), im = be<T>(s, at + sizeof(T)); std::complex<T> z; T a[2] = {re, im}; std::memcpy(&z, a, sizeof a); return z; } static std::string enc(const std::complex<T>& v) { T a[2]; std::memcpy(a, &v, sizeof a); return to_be(a[0]) + to_be(a[1]); } };
template <class T> struct codec<std::pair<T, T>> { static const std::size_t width = 2 * sizeof(T); static std::pair<T, T> dec(const std::string& s, std::size_t at) { return std::make_pair(be<T>(s, at), be<T>(s, at + sizeof(T))); } static std::string enc(const std::pair<T, T>& v) { return to_be(v.first) + to_be(v.second); } };

template <class T> struct field {   // whole field: scalar
    static bool vec() { return false; }
    static T dec(const std::string& s) { return codec<T>::dec(s, 0); }
    static std::string enc(const T& v) { return codec<T>::enc(v); }
};
template <class T> struct field<std::vector<T>> {
    static bool vec() { return true; }
    static std::vector<T> dec(const std::string& s) { std::vector<T> v; for (std::size_t i = 0; i + codec<T>::width <= s.size(); i += codec<T>::width) v.push_back(codec<T>::dec(s, i)); return v; }
    static std::string enc(const std::vector<T>& v) { std::string s; for (std::size_t i = 0; i < v.size(); i++) s += codec<T>::enc(v[i]); return s; }
};

// logical fields compare as T / not T; every other field byte by byte
inline bool same_field(char type, const std::string& a, const std::string& b) {
    if (type != 'L') return a == b;
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); i++) if ((a[i] == 'T') != (b[i] == 'T')) return false;
    return true;
}

template <class T> struct tag { typedef T type; };
// calls f(tag<view type>) for the column; scalars only for a single element
template <class F> void with_type(const Col& k, bool scalar, F& f) {
    if (k.repeat != 1) scalar = false;
    switch (k.type) {
    case 'L': scalar ? f(tag<bool>()) : f(tag<std::vector<bool>>()); break;
    case 'X': case 'B': scalar ? f(tag<std::uint8_t>()) : f(tag<std::vector<std::uint8_t>>()); break;
    case 'I': scalar ? f(tag<boost::int16_t>()) : f(tag<std::vector<boost::int16_t>>()); break;
    case 'J': scalar ? f(tag<boost::int32_t>()) : f(tag<std::vector<boost::int32_t>>()); break;
    case 'A': scalar ? f(tag<char>()) : f(tag<std::vector<char>>()); break;
    case 'E': scalar ? f(tag<boost::float32_t>()) : f(tag<std::vector<boost::float32_t>>()); break;
    case 'D': scalar ? f(tag<boost::float64_t>()) : f(tag<std::vector<boost::float64_t>>()); break;
    case 'C': scalar ? f(tag<std::complex<boost::float32_t>>()) : f(tag<std::vector<std::complex<boost::float32_t>>>()); break;
    case 'M': scalar ? f(tag<std::complex<boost::float64_t>>()) : f(tag<std::vector<std::complex<boost::float64_t>>>()); break;
    case 'P': scalar ? f(tag<std::pair<boost::int32_t, boost::int32_t>>()) : f(tag<std::vector<std::pair<boost::int32_t, boost::int32_t>>>()); break;
    }
}
// Signalling NaNs may be quieted when a float passes through the FPU; the generators below avoid them.
inline std::string quiet(char type, std::string s) {
    std::size_t w = type == 'E' || type == 'C' ? 4 : type == 'D' || type == 'M' ? 8 : 0;
    if (w) for (std::size_t i = 0; i + w <= s.size(); i += w) {
        bool nan = w == 4 ? (static_cast<unsigned char>(s[i]) & 0x7f) == 0x7f && (static_cast<unsigned char>(s[i + 1]) & 0x80) : (static_cast<unsigned char>(s[i]) & 0x7f) == 0x7f && (static_cast<unsigned char>(s[i + 1]) & 0xf0) == 0xf0;
        if (nan) s[i + 1] = static_cast<char>(static_cast<unsigned char>(s[i + 1]) | (w == 4 ? 0x40 : 0x08));
    }
    return s;
}
inline std::string gen_field(Case& c, const Col& k) {   // new field content, a canonical encoding
    std::string s = payload(c, k.width);
    if (k.type == 'L') for (char& ch : s) ch = (static_cast<unsigned char>(ch) & 1) ? 'T' : 'F';
    return quiet(k.type, s);
}
// bytes of a header block of the model as a file, for read_header
inline header_t header_of(Case& c, const Hdu& h, const std::string& name = "h.hdr") {
    std::string p = c.dir + "/" + name; write_file(p, header_bytes(h)); bio::fits_stream s; s.set_file(p); header_t x; x.read_header(s); return x;
}
} // namespace tables
