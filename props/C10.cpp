// C10: binary serialization is big-endian and the inverse of deserialization.
#include "tables.hpp"
using namespace tables;
namespace pbt {
const char* const property_id = "C10";
const char* const property_rule = "values of bool, char, uint8, int16, int32, float32, float64, complex, descriptor pairs and vectors of 0..40 of them, from uniform bit patterns, boundary values and white-space-heavy bytes, against an independent byte-by-byte big-endian codec; the 8 and 16 bit types are enumerated exhaustively; non-trivial: not all bytes equal";
}
typedef bio::binary_data_converter conv;
template <class T> void value_to_bytes(const T& v, const std::string& bytes, const char* what) {
    std::string s = conv::serialize(v); PBT_CHECK(s == bytes, what << " serialized to [" << pbt::printable(s) << "], big-endian is [" << pbt::printable(bytes) << "]");
    const T w = v; std::string s2 = conv::serialize(w); PBT_CHECK(s2 == bytes, what << ": a constant serializes differently");
}
template <class T> void bytes_to_value(const std::string& bytes, std::size_t n, char type, const char* what) {
    T v = conv::deserialize_to<T>(bytes, static_cast<int>(n)); std::string e = field<T>::enc(v);
    PBT_CHECK(same_field(type, e, bytes), what << ": bytes [" << pbt::printable(bytes) << "] deserialize to a value whose bytes are [" << pbt::printable(e) << "]");
    std::string back = conv::serialize(v); PBT_CHECK(same_field(type, back, bytes), what << ": bytes [" << pbt::printable(bytes) << "] come back as [" << pbt::printable(back) << "]");
}
struct both { std::size_t n; char type; const std::string& bytes;
    template <class T> void operator()(tag<T>) { T v = field<T>::dec(bytes); std::string what = std::string("type ") + type + (field<T>::vec() ? " vector of " + num(static_cast<long long>(n)) : " scalar"); value_to_bytes<T>(v, bytes, what.c_str()); bytes_to_value<T>(bytes, n, type, what.c_str()); } };

static void run(Case& c, char type, std::size_t n, bool scalar, const std::string& bytes) {
    Col k; k.type = type; k.repeat = n; k.width = n * bin_size(type); both b{n, type, bytes}; with_type(k, scalar, b);
    PBT_SAY(c, type << " x" << n << (scalar && n == 1 ? " scalar " : " vector ") << pbt::printable(bytes)); c.label(std::string(1, type) + (scalar && n == 1 ? "" : " vector")); bool diff = false; for (char ch : bytes) diff = diff || ch != bytes[0]; c.nontrivial(diff);
}
// special bit patterns of one element
static std::string element(Case& c, char type) {
    std::size_t w = bin_size(type); std::string s;
    switch (c.below(5)) {
    case 0: s = std::string(w, c.pick({'\0', '\xff', '\x7f', '\x80', ' ', '\n', 'T', 'F'})); break;
    case 1: { static const char sp[] = {' ', '\t', '\n', '\r', 0, '\x0b', '\x0c', 'T', 'F', '\xff', '\x80', '\x7f', 1, '0'}; for (std::size_t i = 0; i < w; i++) s += sp[c.below(sizeof sp)]; break; }
    case 2: { u64 v = u64(1) << c.below(8 * w > 64 ? 64 : 8 * w); v += c.upto(2) - 1; s = to_be<u64>(v); s = s.size() > w ? s.substr(s.size() - w) : std::string(w - s.size(), '\0') + s; break; }
    default: s = c.raw(w); break;
    }
    if (type == 'L') for (char& ch : s) ch = static_cast<unsigned char>(ch) & 1 ? 'T' : 'F';
    return quiet(type, s);
}
PBT_PROP(scalars, 250000, 6000000) { char t = "LBIJAEDCMP"[c.below(10)]; run(c, t, 1, true, element(c, t)); }
PBT_PROP(vectors, 60000, 1500000) { char t = "LBIJAEDCMP"[c.below(10)]; std::size_t n = c.size(40); std::string s; for (std::size_t i = 0; i < n; i++) s += element(c, t); run(c, t, n, false, s); }
// vectors longer than small counters hold
PBT_PROP(long_vectors, 1500, 30000) { char t = "LBIJAEDCMP"[c.below(10)]; std::size_t n = c.pick({120, 250, 1000, 4090, 32760, 65530}) + c.below(20), w = bin_size(t), p = 1 + c.below(40); std::string one, s; for (std::size_t i = 0; i < p; i++) one += element(c, t); while (s.size() < n * w) s += one; s.resize(n * w); both b{n, t, s}; Col k; k.type = t; k.repeat = n; k.width = n * w; with_type(k, false, b); PBT_SAY(c, t << " x" << n << " repeating " << pbt::printable(one)); c.label(n > 65535, "more than 16 bits count"); c.nontrivial(); }
// the first elements of longer data; too short data is refused
template <class T> static void part(const std::string& data, std::size_t n, std::size_t have, char type) {
    bool refused = false; T v; try { v = conv::deserialize_to<T>(data, static_cast<int>(n)); } catch (std::exception&) { refused = true; }
    PBT_EQ(refused, n > have, "reading " << n << " elements of type " << type << " from " << data.size() << " bytes: refused"); if (!refused) { std::string want = data.substr(0, n * bin_size(type)); PBT_CHECK(same_field(type, field<T>::enc(v), want), "the first " << n << " elements of type " << type << " in [" << pbt::printable(data) << "] have the bytes [" << pbt::printable(field<T>::enc(v)) << "]"); } }
PBT_PROP(partial_data, 30000, 600000) {
    char t = "LBAPIJEDCM"[c.below(10)]; std::size_t w = bin_size(t), have = c.below(6), n = c.below(8); std::string s; for (std::size_t i = 0; i < have; i++) s += element(c, t); s += c.raw(c.below(w)); PBT_SAY(c, n << " of type " << t << " from " << pbt::printable(s)); c.nontrivial(n != have); c.label(n > have ? "too short" : "enough");
    if (c.chance(1, 4)) { c.label("scalar"); c.nontrivial(have == 0); if (have > 1 && (t == 'A' || t == 'B')) return; switch (t) { case 'L': part<bool>(s, 1, have, t); break; case 'B': part<std::uint8_t>(s, 1, have, t); break; case 'A': part<char>(s, 1, have, t); break; case 'P': part<std::pair<boost::int32_t, boost::int32_t>>(s, 1, have, t); break; case 'I': part<boost::int16_t>(s, 1, have, t); break; case 'J': part<boost::int32_t>(s, 1, have, t); break; case 'E': part<boost::float32_t>(s, 1, have, t); break; case 'D': part<boost::float64_t>(s, 1, have, t); break; case 'C': part<std::complex<boost::float32_t>>(s, 1, have, t); break; default: part<std::complex<boost::float64_t>>(s, 1, have, t); } return; }
    switch (t) { case 'L': part<std::vector<bool>>(s, n, have, t); break; case 'B': part<std::vector<std::uint8_t>>(s, n, have, t); break; case 'A': part<std::vector<char>>(s, n, have, t); break; case 'P': part<std::vector<std::pair<boost::int32_t, boost::int32_t>>>(s, n, have, t); break; case 'I': part<std::vector<boost::int16_t>>(s, n, have, t); break; case 'J': part<std::vector<boost::int32_t>>(s, n, have, t); break; case 'E': part<std::vector<boost::float32_t>>(s, n, have, t); break; case 'D': part<std::vector<boost::float64_t>>(s, n, have, t); break; case 'C': part<std::vector<std::complex<boost::float32_t>>>(s, n, have, t); break; default: part<std::vector<std::complex<boost::float64_t>>>(s, n, have, t); }
}
PBT_PROP(all_8_bit, 768, 768) { u64 i = c.enumerate(768); char b = static_cast<char>(i & 255); char t = i < 256 ? 'A' : i < 512 ? 'B' : 'L'; if (t == 'L') b = b & 1 ? 'T' : 'F'; run(c, t, 1, true, std::string(1, b)); run(c, t, 1, false, std::string(1, b)); c.nontrivial(); }
PBT_PROP(all_16_bit, 65536, 65536) { u64 i = c.enumerate(65536); run(c, 'I', 1, true, to_be<std::uint16_t>(static_cast<std::uint16_t>(i))); c.nontrivial(); }
// logicals: only 'T' is true
PBT_PROP(logical_bytes, 256, 256) { char b = static_cast<char>(c.enumerate(256)); c.nontrivial(); PBT_EQ(conv::deserialize_to<bool>(std::string(1, b), 1), b == 'T', "logical byte " << static_cast<int>(b)); std::vector<bool> v = conv::deserialize_to<std::vector<bool>>(std::string(3, b), 3); PBT_EQ(v.size(), std::size_t(3), "logicals in a vector"); for (int i = 0; i < 3; i++) PBT_EQ(static_cast<bool>(v[static_cast<std::size_t>(i)]), b == 'T', "logical byte " << static_cast<int>(b) << " in a vector"); }
// ASCII converter: integers and text round-trip; floating-point text keeps six digits
PBT_PROP(ascii_numbers, 60000, 1500000) {
    long long v = c.integer(std::numeric_limits<i64>::min(), std::numeric_limits<i64>::max()); PBT_SAY(c, v); c.nontrivial();
    PBT_EQ(bio::ascii_converter::serialize(v), num(v), "integer text"); PBT_EQ(bio::ascii_converter::deserialize_to<long long>(num(v), 0), v, "integer from text");
    std::string t; double d; t = float_text(c, d); double g = bio::ascii_converter::deserialize_to<double>(t, 0); PBT_CHECK(g == d, "[" << t << "] reads as " << g << ", expected " << d);
    double r = bio::ascii_converter::deserialize_to<double>(bio::ascii_converter::serialize(d), 0); PBT_CHECK(std::fabs(r - d) <= 1e-5 * std::fabs(d), d << " comes back as " << r);
    std::string s = inner_text(c, 20); PBT_EQ(bio::ascii_converter::serialize(s), s, "text"); PBT_EQ(bio::ascii_converter::deserialize_to<std::string>(s, 0), s, "text back");
}
