// C13: the FITS stream behaves like a byte file with 2880-byte records.
#include "fitscheck.hpp"
using namespace fitscheck;
namespace pbt {
const char* const property_id = "C13";
const char* const property_rule = "histories of 3..40 stream operations (open, create, close, seek, read, get, write, write at an offset, end test, record end, record alignment; sizes and offsets biased to multiples of 2880) against a byte-array model with one position, the file content compared at every close; non-trivial: at least one read or write of data; sparse files and positions beyond 2 and 4 GB";
}
typedef boost::astronomy::file_reading_exception read_error;
static std::size_t near_record(Case& c, std::size_t max) { std::size_t v = c.flag() ? c.below(max + 1) : REC * c.below(max / REC + 1) + c.below(5); if (v >= 2 && c.flag()) v -= 2; return v; }

PBT_PROP(histories, 25000, 600000) {
    std::vector<std::string> disk(3); std::vector<bool> exists(3, false); for (int i = 0; i < 2; i++) { disk[static_cast<std::size_t>(i)] = c.bulk(near_record(c, 9000)); exists[static_cast<std::size_t>(i)] = true; }
    auto path = [&](std::size_t i) { return c.dir + "/s" + num(static_cast<long long>(i)); };
    for (std::size_t i = 0; i < 3; i++) if (exists[i]) write_file(path(i), disk[i]);
    bio::fits_stream s; int file = -1; bool writable = false; std::size_t pos = 0; std::size_t steps = 3 + c.below(38);
    auto sync = [&](std::size_t i) { PBT_CHECK(!exists[i] || read_file(path(i)) == disk[i], "file " << i << " has " << read_file(path(i)).size() << " bytes that differ from the model's " << disk[i].size()); };
    for (std::size_t k = 0; k < steps; k++) {
        int op = static_cast<int>(c.below(14)); std::string* d = file >= 0 ? &disk[static_cast<std::size_t>(file)] : nullptr;
        if (file < 0 && op > 2) op = static_cast<int>(c.below(3));
        switch (op) {
        case 0: { std::size_t i = c.below(3); int old = file; PBT_SAY(c, "set_file " << i << (exists[i] ? "" : " (missing)"));
            bool thrown = false; try { s.set_file(path(i)); } catch (read_error&) { thrown = true; } PBT_EQ(thrown, !exists[i], "file_reading_exception from set_file"); if (old >= 0) sync(static_cast<std::size_t>(old));
            file = exists[i] ? static_cast<int>(i) : -1; writable = false; pos = 0; if (file >= 0) PBT_CHECK(s.is_open(), "not open after set_file"); break; }
        case 1: { if (c.chance(1, 6)) { PBT_SAY(c, "create_file in a missing directory"); PBT_CHECK(!s.create_file(c.dir + "/no/such/dir"), "an impossible file was created"); if (file >= 0) sync(static_cast<std::size_t>(file)); file = -1; break; }
            std::size_t i = c.below(3); PBT_SAY(c, "create_file " << i); int old = file; PBT_CHECK(s.create_file(path(i)), "create_file failed"); if (old >= 0 && static_cast<std::size_t>(old) != i) sync(static_cast<std::size_t>(old)); disk[i].clear(); exists[i] = true; file = static_cast<int>(i); writable = true; pos = 0; PBT_CHECK(s.is_open(), "not open after create_file"); break; }
        case 2: PBT_SAY(c, "close"); s.close(); PBT_CHECK(!s.is_open(), "open after close"); if (file >= 0) sync(static_cast<std::size_t>(file)); file = -1; break;
        case 3: case 4: { pos = near_record(c, d->size() + 3000); if (c.below(4)) pos = std::min(pos, d->size()); PBT_SAY(c, "set_reading_pos " << pos << " of " << d->size()); s.set_reading_pos(pos); PBT_EQ(s.get_current_pos(), pos, "position after set_reading_pos"); break; }
        case 5: case 6: { std::size_t left = pos < d->size() ? d->size() - pos : 0, n = near_record(c, 4000); if (c.below(5)) n = std::min(n, left); PBT_SAY(c, "read " << n << " at " << pos);
            if (n <= left) { std::string r = s.read(n); PBT_CHECK(r == d->substr(std::min(pos, d->size()), n), "read(" << n << ") at " << pos << " returned other bytes"); pos += n; c.nontrivial(n > 0); PBT_EQ(s.get_current_pos(), pos, "position after read"); }
            else { bool thrown = false; try { s.read(n); } catch (read_error&) { thrown = true; } PBT_CHECK(thrown, "read(" << n << ") at " << pos << " of " << d->size() << " bytes is not reported"); PBT_CHECK(s.at_end(), "at_end() after a read beyond the end"); pos = c.below(d->size() + 1); s.set_reading_pos(pos); PBT_EQ(s.get_current_pos(), pos, "position set after a read beyond the end"); }
            break; }
        case 7: { PBT_SAY(c, "get at " << pos); if (pos < d->size()) { unsigned char b = s.get(); PBT_EQ(static_cast<int>(b), static_cast<int>(static_cast<unsigned char>((*d)[pos])), "byte from get() at " << pos); pos++; c.nontrivial(); PBT_EQ(s.get_current_pos(), pos, "position after get"); } else { PBT_EQ(static_cast<int>(s.get()), 0, "get() at the end"); PBT_CHECK(s.at_end(), "at_end() after get() at the end"); pos = c.below(d->size() + 1); s.set_reading_pos(pos); PBT_EQ(s.get_current_pos(), pos, "position set after get() at the end"); } break; }
        case 8: { std::string w = c.bulk(near_record(c, 3500)); if (!writable) break; PBT_SAY(c, "write " << w.size() << " at " << pos); PBT_CHECK(s.write(w), "write failed"); if (!w.empty()) { if (d->size() < pos + w.size()) d->resize(pos + w.size(), '\0'); d->replace(pos, w.size(), w); } pos += w.size(); c.nontrivial(!w.empty()); PBT_EQ(s.get_current_pos(), pos, "position after write"); break; }
        case 9: { std::string w = c.bulk(near_record(c, 3500)); std::size_t at = near_record(c, d->size() + 1000); if (!writable || w.empty()) break; PBT_SAY(c, "write " << w.size() << " at offset " << at); PBT_CHECK(s.write(w, at), "write at an offset failed"); if (d->size() < at + w.size()) d->resize(at + w.size(), '\0'); d->replace(at, w.size(), w); pos = at + w.size(); c.nontrivial(); PBT_EQ(s.get_current_pos(), pos, "position after write at an offset"); break; }
        case 10: { bool e = s.at_end(); PBT_SAY(c, "at_end at " << pos << " of " << d->size()); PBT_EQ(e, pos >= d->size(), "at_end()"); PBT_EQ(s.get_current_pos(), pos, "position after at_end"); break; }
        case 11: { std::size_t want = (pos + REC - 1) / REC * REC; PBT_EQ(s.find_unit_end(), want, "record end from " << pos); PBT_EQ(s.get_current_pos(), pos, "position after find_unit_end"); } break;
        case 12: { pos = (pos + REC - 1) / REC * REC; PBT_SAY(c, "set_unit_end to " << pos); s.set_unit_end(); PBT_EQ(s.get_current_pos(), pos, "position after set_unit_end"); } break;
        default: PBT_EQ(s.get_current_pos(), pos, "get_current_pos"); break;
        }
    }
    s.close(); for (std::size_t i = 0; i < 3; i++) sync(i);
}
// every record residue
PBT_PROP(record_end, 6000, 12000) {
    std::size_t p = c.enumerate(6000); std::string f = c.dir + "/r"; write_file(f, std::string(9000, 'x')); bio::fits_stream s; s.set_file(f); s.set_reading_pos(p); c.nontrivial();
    std::size_t want = (p + REC - 1) / REC * REC; PBT_EQ(s.find_unit_end(), want, "record end from " << p); s.set_unit_end(); PBT_EQ(s.get_current_pos(), want, "position after set_unit_end from " << p); s.set_unit_end(); PBT_EQ(s.get_current_pos(), want, "alignment of an aligned position");
}
// reads and writes of many megabytes at once
PBT_PROP(large_blocks, 24, 300) {
    const std::size_t mb = std::size_t(1) << 20; std::size_t n = c.pick({1 * mb, 4 * mb, 8 * mb, 16 * mb, 32 * mb}) + c.below(7) - 3, before = c.below(6000); PBT_SAY(c, "block of " << n << " bytes at " << before); c.nontrivial();
    std::string unit = c.bulk(2881 + c.below(500)), all; while (all.size() < before + n + 50) all += unit; std::string f = c.dir + "/blk"; bool written = c.flag();
    if (written) { bio::fits_stream w; PBT_CHECK(w.create_file(f), "create_file failed"); PBT_CHECK(w.write(all.substr(0, before)) && w.write(all.substr(before, n)), "write failed"); PBT_EQ(w.get_current_pos(), before + n, "position after the writes"); w.close(); all.resize(before + n); PBT_CHECK(read_file(f) == all, "the written file differs"); } else write_file(f, all);
    bio::fits_stream s; s.set_file(f); s.set_reading_pos(before); std::string r = s.read(n); PBT_EQ(r.size(), n, "bytes read"); PBT_CHECK(all.compare(before, n, r) == 0, "read(" << n << ") at " << before << " returned other bytes"); PBT_EQ(s.get_current_pos(), before + n, "position after the read"); PBT_EQ(s.at_end(), all.size() == before + n, "at_end()");
    s.set_reading_pos(before); bool thrown = false; try { s.read(all.size() - before + 1); } catch (read_error&) { thrown = true; } PBT_CHECK(thrown, "a read of one byte more than there is is not reported");
}
// positions of large files: nothing is cut to 32 bits
PBT_PROP(large_positions, 4000, 100000) {
    pbt::sparse_files lifted;
    std::string f = c.dir + "/big"; bool sparse = c.chance(1, 4); std::size_t base = c.pick({std::size_t(1) << 31, std::size_t(1) << 32, std::size_t(1) << 33, std::size_t(1) << 40}); std::size_t p = base - 3000 + c.below(6000); write_file(f, "begin"); c.nontrivial(); PBT_SAY(c, "position " << p << (sparse ? " of a sparse file" : ""));
    std::string tail = c.bulk(1 + c.below(3000)); if (sparse && base > (std::size_t(1) << 33)) sparse = false;
    if (sparse) { int fd = ::open(f.c_str(), O_RDWR); bool ok = fd >= 0 && ::pwrite(fd, tail.data(), tail.size(), static_cast<off_t>(p)) == static_cast<ssize_t>(tail.size()); ::close(fd); if (!ok) throw pbt::Discard(); }
    bio::fits_stream s; s.set_file(f); s.set_reading_pos(p); PBT_EQ(s.get_current_pos(), p, "position"); std::size_t want = (p + REC - 1) / REC * REC;
    if (sparse) { PBT_CHECK(!s.at_end(), "at_end() before the end"); PBT_CHECK(s.read(tail.size()) == tail, "bytes at " << p); PBT_EQ(s.get_current_pos(), p + tail.size(), "position after read"); s.set_reading_pos(p); }
    PBT_EQ(s.find_unit_end(), want, "record end from " << p); PBT_EQ(s.get_current_pos(), p, "position after find_unit_end"); s.set_unit_end(); PBT_EQ(s.get_current_pos(), want, "position after set_unit_end");
    if (sparse && c.flag()) { s.close(); bio::fits_stream w; w.get_internal_stream().open(f, std::ios::binary | std::ios::in | std::ios::out); PBT_CHECK(w.write("XYZ", p + tail.size()), "write at " << p + tail.size()); w.close(); std::ifstream in(f, std::ios::binary); in.seekg(static_cast<std::streamoff>(p + tail.size())); char b[4] = {0}; in.read(b, 3); PBT_CHECK(std::string(b) == "XYZ", "bytes written at " << p + tail.size()); }
}
