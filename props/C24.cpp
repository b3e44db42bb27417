// C24: a FITS file is written completely, or the failure is reported.
#include "fitscheck.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace fitscheck;
namespace pbt {
const char* const property_id = "C24";
const char* const property_rule = "generated files opened and written to targets that cannot be created (missing directory, a directory, too long a name), to a full device, under a file-size limit at any byte (RLIMIT_FSIZE, also exactly at and behind the end), over longer, shorter or unrelated existing files, over the source itself, from objects of which only the headers were read, and to good paths before and after; oracle: an exception exactly when the bytes cannot all be stored, and a complete file otherwise; non-trivial: a fault was injected or an existing file replaced";
}
// data bytes of every HDU and header cards, ASCII cells by text
static void complete(const std::string& b, const std::vector<Hdu>& f) {
    auto p = parse(b); PBT_EQ(p.size(), f.size(), "number of HDUs in the written file");
    for (std::size_t i = 0; i < f.size(); i++) { PBT_CHECK(p[i].cards == f[i].cards, "header of HDU " << i << " differs"); PBT_EQ(p[i].data.size(), f[i].data.size(), "data size of HDU " << i);
        if (f[i].kind != Hdu::ASCII) PBT_CHECK(p[i].data == f[i].data, "data of HDU " << i << " differs");
        else for (std::size_t r = 0; r < f[i].rows; r++) for (std::size_t k = 0; k < f[i].cols.size(); k++) { const Col& q = f[i].cols[k]; PBT_EQ(trim(p[i].data.substr(r * f[i].naxis[0] + q.tbcol - 1, q.width)), f[i].cells[r][k], "HDU " << i << " row " << r << " column " << q.name); } }
}
struct size_limit {   // the soft limit only, for the time of one call
    rlimit old; explicit size_limit(std::size_t n) { getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); }
    ~size_limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
template <class X> bool reported(X& x, const std::string& path) { try { x.write_to(path); } catch (std::exception&) { return true; } return false; }

PBT_PROP(write_or_report, 14000, 300000) {
    std::vector<Hdu> f = gen_file(c, 2); describe(c, f); std::string src = bytes(f), a = c.dir + "/a.fits", good = c.dir + "/b.fits"; write_file(a, src); unlink(good.c_str());
    auto x = bio::fits::open(a); std::size_t steps = 1 + c.below(4);
    for (std::size_t s = 0; s < steps; s++) switch (c.below(9)) {
    case 0: { PBT_SAY(c, "write to a missing directory"); c.nontrivial(); c.label("missing directory"); PBT_CHECK(reported(x, c.dir + "/no/such/b.fits"), "a file in a missing directory was 'written' without an error"); break; }
    case 1: { PBT_SAY(c, "write to a directory"); c.nontrivial(); std::string d = c.dir + "/dir"; mkdir(d.c_str(), 0700); PBT_CHECK(reported(x, d), "a directory was 'written' without an error"); rmdir(d.c_str()); break; }
    case 2: { PBT_SAY(c, "write to a name of 300 characters"); c.nontrivial(); PBT_CHECK(reported(x, c.dir + "/" + std::string(300, 'n')), "an impossible name was 'written' without an error"); break; }
    case 3: { if (access("/dev/full", W_OK) != 0) break; PBT_SAY(c, "write to a full device"); c.nontrivial(); c.label("full device"); PBT_CHECK(reported(x, "/dev/full"), "writing to a full device was not reported"); break; }
    case 4: case 5: { std::size_t n = c.chance(1, 5) ? src.size() + c.below(3) * 100 : c.chance(1, 4) ? src.size() - 1 - c.below(40) : c.chance(1, 4) ? REC * c.below(src.size() / REC) : c.below(src.size()); PBT_SAY(c, "write with room for " << n << " of " << src.size() << " bytes"); c.nontrivial(); c.label(n < src.size() ? "too little room" : "just enough room");
        bool r; { size_limit l(n); r = reported(x, good); } PBT_EQ(r, n < src.size(), "error reported when " << n << " of " << src.size() << " bytes can be stored"); if (!r) complete(read_file(good), f); break; }
    case 6: { std::string old = c.flag() ? std::string(c.below(20000), 'E') : src + src; PBT_SAY(c, "write over a file of " << old.size() << " bytes"); c.nontrivial(); c.label(old.size() > src.size() ? "replaces a longer file" : "replaces a shorter file"); write_file(good, old); x.write_to(good); complete(read_file(good), f); break; }
    case 7: { PBT_SAY(c, "write what was read without its data"); auto y = bio::fits::open(a, bio::reading_options::read_only_headers); bool data = false; for (auto& h : f) data = data || !h.data.empty(); if (data) c.nontrivial(); c.label(data ? "headers only, data missing" : "headers only, no data");
        bool r = reported(y, good); PBT_CHECK(r || !data, "a file of which only the headers were read was 'written' without its data"); if (!r) complete(read_file(good), f); else PBT_CHECK(data, "a file without data was refused"); break; }
    default: { PBT_SAY(c, "write over the source"); c.nontrivial(); x.write_to(a); std::string b = read_file(a); complete(b, f); for (std::size_t i = 0; i < f.size(); i++) check_hdu(x[static_cast<int>(i)], f[i], true); src = b; break; }
    }
    // the object and the source survived whatever happened, and the next write is complete as soon as write_to returns
    for (std::size_t i = 0; i < f.size(); i++) check_hdu(x[static_cast<int>(i)], f[i], true);
    PBT_CHECK(read_file(a) == src, "the source file changed"); x.write_to(good); complete(read_file(good), f);
}
// the stream itself: creation fails visibly, and stored bytes are all there once the stream is closed
PBT_PROP(stream_creation, 3000, 50000) {
    bio::fits_stream s; bool before = c.flag(); std::string g = c.dir + "/g", w = c.bulk(c.below(9000)); if (before) { PBT_CHECK(s.create_file(g), "create_file"); s.write(w); }
    int how = static_cast<int>(c.below(3)); std::string bad = how == 0 ? c.dir + "/no/x" : how == 1 ? c.dir : c.dir + "/" + std::string(300, 'n'); PBT_SAY(c, "create " << how << " after " << (before ? w.size() : 0)); c.nontrivial();
    PBT_CHECK(!s.create_file(bad), "an impossible file was created"); PBT_CHECK(!s.is_open(), "open after a failed create_file"); PBT_CHECK(!s.write("x"), "a write without a file succeeded"); if (before) PBT_CHECK(read_file(g) == w, "the earlier file lost its bytes");
    PBT_CHECK(s.create_file(g), "create_file after a failed one"); PBT_CHECK(s.write(w), "write after a failed create_file"); s.close(); PBT_CHECK(read_file(g) == w, "bytes missing after close");
}
