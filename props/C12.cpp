// C12: images hold the file's pixels and their statistics are correct.
#include "tables.hpp"
using namespace tables;
namespace pbt {
const char* const property_id = "C12";
const char* const property_rule = "images of every BITPIX and 0..4 dimensions (1..6000 bytes; uniform, narrow-range, constant, sorted and extreme pixel values) as primary HDU, image extension and image object; every pixel, the statistics and the written bytes against long-double definitions over independently decoded pixels; non-trivial: at least two different pixels";
}
template <bio::bitpix B> struct px { typedef typename bio::bitpix_type<B>::underlying_type type; };

// pixel values with finite, moderate magnitudes for the floating-point types
template <class T> std::string gen_pixels(Case& c, std::size_t n) {
    std::string s; int mode = static_cast<int>(c.below(5)); u64 seed = c.upto(~u64(0)); pbt::Rng r(seed); std::vector<T> v;
    double span = std::pow(10.0, static_cast<double>(c.range(-3, std::is_same<T, float>::value ? 15 : 60)));
    for (std::size_t i = 0; i < n; i++) {
        u64 x = r.next(); T p;
        if (std::is_floating_point<T>::value) { double u = static_cast<double>(x >> 11) / 9007199254740992.0 - 0.5; p = mode == 0 ? static_cast<T>(static_cast<long long>(x % 21) - 10) : mode == 1 ? static_cast<T>(span) : mode == 2 ? static_cast<T>(1000 + u) : static_cast<T>(u * span); }
        else { p = static_cast<T>(mode == 0 ? x % 7 : mode == 1 ? 42 : mode == 2 ? (x & 1 ? static_cast<u64>(std::numeric_limits<T>::max()) : static_cast<u64>(std::numeric_limits<T>::min())) - (x >> 60) * (x & 1) : x); }
        v.push_back(p);
    }
    if (c.chance(1, 4)) std::sort(v.begin(), v.end()); if (c.chance(1, 6)) std::sort(v.rbegin(), v.rend());
    for (T p : v) s += to_be<T>(p); c.label("pixels " + num(mode)); return s;
}
static std::string gen_pixels_of(Case& c, int bitpix, std::size_t n) { switch (bitpix) { case 8: return gen_pixels<std::uint8_t>(c, n); case 16: return gen_pixels<std::int16_t>(c, n); case 32: return gen_pixels<std::int32_t>(c, n); case -32: return gen_pixels<float>(c, n); default: return gen_pixels<double>(c, n); } }

template <class T, class Image> void statistics(const Image& img, const Hdu& m) {
    std::size_t n = product(m.naxis); if (!n) { PBT_CHECK(img.mean() == 0 && img.std_dev() == 0, "an image without pixels has the mean " << img.mean() << " and the deviation " << img.std_dev()); return; }
    std::vector<T> v; for (std::size_t i = 0; i < n; i++) v.push_back(be<T>(m.data, i * sizeof(T)));
    long double sum = 0, amax = 0; for (T p : v) { sum += p; amax = std::max<long double>(amax, std::fabs(static_cast<long double>(p))); } long double mean = sum / static_cast<long double>(n), ss = 0; for (T p : v) ss += (p - mean) * (p - mean);
    PBT_EQ(+img.max(), +*std::max_element(v.begin(), v.end()), "maximum"); PBT_EQ(+img.min(), +*std::min_element(v.begin(), v.end()), "minimum");
    long double tol = amax * static_cast<long double>(n) * 4e-16L + 1e-300L;
    PBT_CHECK(std::fabs(img.mean() - mean) <= tol, "mean of " << n << " pixels: got " << img.mean() << ", expected " << static_cast<double>(mean));
    std::vector<T> s = v; std::sort(s.begin(), s.end()); PBT_EQ(+img.median(), +s[n / 2], "median (element of rank " << n / 2 << ")");
    if (n >= 2) { long double sd = std::sqrt(ss / static_cast<long double>(n - 1)); PBT_CHECK(std::fabs(img.std_dev() - sd) <= sd * 1e-9L + tol * 4, "standard deviation of " << n << " pixels: got " << img.std_dev() << ", expected " << static_cast<double>(sd)); }
}
template <bio::bitpix B, class H> void one(H& hdu, const Hdu& m) {
    auto img = hdu.template get_data<B>(); check_pixels<B>(img, m); statistics<typename px<B>::type>(img, m); check_pixels<B>(img, m); check_pixels<B>(hdu.template get_data<B>(), m);
}
// asking for pixels of another type than BITPIX announces is reported
template <bio::bitpix B, class H> void other(H& hdu, const Hdu& m, int bp) { if (bp == m.bitpix) return; bool thrown = false; try { auto img = hdu.template get_data<B>(); (void)img; } catch (std::exception&) { thrown = true; } PBT_CHECK(thrown, "an image of BITPIX " << m.bitpix << " is returned as one of BITPIX " << bp); }
template <class H> void others(H& h, const Hdu& m) { other<bio::bitpix::B8>(h, m, 8); other<bio::bitpix::B16>(h, m, 16); other<bio::bitpix::B32>(h, m, 32); other<bio::bitpix::_B32>(h, m, -32); other<bio::bitpix::_B64>(h, m, -64); }
template <class H> void dispatch(H& hdu, const Hdu& m) { others(hdu, m); switch (m.bitpix) { case 8: one<bio::bitpix::B8>(hdu, m); break; case 16: one<bio::bitpix::B16>(hdu, m); break; case 32: one<bio::bitpix::B32>(hdu, m); break; case -32: one<bio::bitpix::_B32>(hdu, m); break; default: one<bio::bitpix::_B64>(hdu, m); } }
template <class H> void written(Case& c, H& hdu, const Hdu& m) {
    std::string p = c.dir + "/w.fits"; { bio::fits_stream s; s.create_file(p); hdu.write_to(s); } PBT_CHECK(read_file(p) == bytes(m), "the written HDU differs from header and big-endian pixels");
}
static void finish(Case& c, Hdu& m) { m.data = gen_pixels_of(c, m.bitpix, product(m.naxis)); bool d = false; std::size_t e = elem(m.bitpix); for (std::size_t i = e; i < m.data.size(); i++) d = d || m.data[i] != m.data[i - e]; c.nontrivial(d); c.label("BITPIX " + num(m.bitpix)); c.label("NAXIS " + num(static_cast<long long>(m.naxis.size()))); if (c.describe) c.say_s(summary(m)); }

PBT_PROP(primary, 12000, 300000) { Hdu m = gen_primary(c, 6000, 8); finish(c, m); header_t h = header_of(c, m); bio::primary_hdu p(h, m.data); check_header(p.get_header(), m); dispatch(p, m); written(c, p, m); dispatch(p, m); }
PBT_PROP(extension, 8000, 200000) { Hdu m = gen_image(c, 6000); finish(c, m); header_t h = header_of(c, m); bio::image_extension p(h, m.data); check_header(p.get_header(), m); dispatch(p, m); written(c, p, m); dispatch(p, m); }
PBT_PROP(from_file, 4000, 100000) {
    Hdu m = gen_primary(c, 6000, 8); finish(c, m); std::string f = c.dir + "/a.fits"; write_file(f, bytes(m)); auto x = bio::fits::open(f); auto& p = bio::fits::convert_to<bio::primary_hdu>(x[0]); dispatch(p, m);
    bio::primary_hdu q = p; dispatch(q, m);
}
// more pixels, rows or columns than 8 and 16 bits count
PBT_PROP(large_images, 120, 2500) {
    static const std::vector<std::vector<std::size_t>> dims = {{65530}, {1, 65530}, {256, 256}, {65536, 2}, {2, 65536}, {250, 270}, {3, 32768}, {255, 16, 17}, {131072}};
    Hdu m; m.kind = Hdu::PRIMARY; m.bitpix = c.pick({8, 16, 32, -32, -64}); m.naxis = dims[c.below(dims.size())]; m.naxis[c.below(m.naxis.size())] += c.below(10); put_b(m, "SIMPLE", true); axes_cards(m); finish(c, m);
    std::string f = c.dir + "/a.fits"; write_file(f, bytes(m)); auto x = bio::fits::open(f); auto& p = bio::fits::convert_to<bio::primary_hdu>(x[0]); dispatch(p, m); written(c, p, m);
}
// pixel objects read again: the previous content is replaced
template <bio::bitpix B> void reread(Case& c, int bp) {
    bio::image<B, bio::binary_data_converter> img; std::size_t n = 2 + c.below(3);
    for (std::size_t i = 0; i < n; i++) { Hdu m; m.bitpix = bp; m.naxis = {1 + c.below(20), 1 + c.below(20)}; if (c.chance(1, 5)) m.naxis[c.below(2)] = 0; finish(c, m); PBT_SAY(c, "read " << m.naxis[0] << " x " << m.naxis[1]); img.read_image(m.data, m.naxis[0]); PBT_EQ(img.size(), product(m.naxis), "number of pixels"); check_pixels<B>(img, m); statistics<typename px<B>::type>(img, m); }
}
PBT_PROP(image_object, 5000, 100000) { switch (c.below(5)) { case 0: reread<bio::bitpix::B8>(c, 8); break; case 1: reread<bio::bitpix::B16>(c, 16); break; case 2: reread<bio::bitpix::B32>(c, 32); break; case 3: reread<bio::bitpix::_B32>(c, -32); break; default: reread<bio::bitpix::_B64>(c, -64); } }
// statistics do not depend on the order of the pixels
PBT_PROP(permutation, 3000, 60000) {
    Hdu m; m.bitpix = 16; m.naxis = {2 + c.below(40), 1 + c.below(20)}; finish(c, m); bio::image<bio::bitpix::B16, bio::binary_data_converter> a, b; a.read_image(m.data, m.naxis[0]); std::vector<std::int16_t> v; for (std::size_t i = 0; i < product(m.naxis); i++) v.push_back(be<std::int16_t>(m.data, 2 * i)); pbt::Rng r(c.upto(~u64(0))); for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.next() % i]); std::string s; for (auto p : v) s += to_be(p); b.read_image(s, m.naxis[0]);
    PBT_EQ(a.max(), b.max(), "maximum after permuting"); PBT_EQ(a.min(), b.min(), "minimum after permuting"); PBT_EQ(a.median(), b.median(), "median after permuting"); PBT_CHECK(std::fabs(a.mean() - b.mean()) < 1e-7, "mean after permuting"); PBT_CHECK(std::fabs(a.std_dev() - b.std_dev()) < 1e-6 * (1 + a.std_dev()), "deviation after permuting");
}
