// Small property-based testing engine used by every check in /verif/props.
//
//  * A property is a function over a Case.  Every random decision goes through the Case, which records
//    it on a "tape" of bounded integers; a tape replays exactly the same case (pure function of the tape).
//  * Case i of property p under seed s is generated from hash(s, p, i): the set of generated cases does not
//    depend on the number of workers or on timing.
//  * Cases run in forked workers.  A failed assertion, an unexpected exception, a sanitizer report, a signal
//    or a CPU-time runaway in a worker is a failure of the case whose tape is then in shared memory.
//  * A failure is shrunk on the tape (delete / zero / reduce), every candidate being run in its own fork,
//    and replayed three times before it is reported.
//  * With -DPBT_LIBFUZZER the same properties become a libFuzzer target: bytes are decoded into the tape.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <cxxabi.h>

namespace pbt {

typedef std::uint64_t u64;
typedef std::int64_t i64;

struct Fail { std::string msg; };
struct Discard {};

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 hash_str(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
    return mix(h);
}
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
};

const std::size_t TAPE_CAP = 1 << 15;

struct Shared {            // one per worker
    volatile u64 case_no;
    volatile u64 prop;
    volatile u64 len;
    volatile u64 state;    // 0 idle, 1 running, 2 failed by assertion
    volatile u64 done;
    char msg[4096];
    u64 tape[TAPE_CAP];
};

inline std::string printable(const std::string& s, std::size_t cap = 400) {
    std::string o;
    for (unsigned char ch : s) {
        if (o.size() > cap) { o += "..."; break; }
        if (ch == '\\') o += "\\\\";
        else if (ch >= 32 && ch < 127) o += static_cast<char>(ch);
        else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
    }
    return o;
}

struct Case {
    enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
    Rng rng;
    const u64* in = nullptr; std::size_t in_len = 0, pos = 0;
    const std::uint8_t* bytes = nullptr; std::size_t nbytes = 0;
    Shared* sh = nullptr;
    u64 index = 0;
    bool describe = false;
    std::string text;
    bool nontriv = false;
    u64 sig = 0;           // signature of the case: distinctness
    std::vector<std::string> labels;
    std::string dir;       // private scratch directory
    std::size_t used = 0;

    // ---- raw draws -------------------------------------------------------
    u64 upto(u64 max) {    // uniform in [0, max]
        u64 v = 0;
        if (mode == RANDOM) {
            if (used >= TAPE_CAP) v = 0;
            else if (max == ~u64(0)) v = rng.next();
            else { u64 n = max + 1; v = static_cast<u64>((static_cast<unsigned __int128>(rng.next()) * n) >> 64); }
        } else if (mode == REPLAY) {
            v = pos < in_len ? in[pos] : 0; pos++;
            if (v > max) v = max == ~u64(0) ? v : v % (max + 1);
        } else {
            int nb = 0; for (u64 m = max; m; m >>= 8) nb++;
            for (int i = 0; i < nb; i++) { v = (v << 8) | (pos < nbytes ? bytes[pos] : 0); pos++; }
            if (v > max) v = v % (max + 1);
        }
        record(v);
        return v;
    }
    void record(u64 v) {
        if (sh && used < TAPE_CAP) { sh->tape[used] = v; sh->len = used + 1; }
        used++;
        sig = mix(sig ^ mix(v + used));
    }
    // Walks the domain [0,n) one element per case, so that n cases cover it completely.
    u64 enumerate(u64 n) {
        if (mode == RANDOM) { u64 v = index % n; record(v); return v; }
        return upto(n - 1);
    }
    u64 below(u64 n) { return n ? upto(n - 1) : 0; }
    i64 range(i64 lo, i64 hi) { return static_cast<i64>(static_cast<u64>(lo) + upto(static_cast<u64>(hi) - static_cast<u64>(lo))); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // 0 on the tape means "no"
    bool flag() { return below(2) == 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }

    // ---- derived generators ---------------------------------------------
    // size with a bias to small values, still reaching max
    std::size_t size(std::size_t max) {
        switch (below(4)) {
        case 0: return below(std::min<std::size_t>(max, 3) + 1);
        case 1: case 2: return below(std::min<std::size_t>(max, 12) + 1);
        default: return below(max + 1);
        }
    }
    i64 integer(i64 lo, i64 hi) {      // integers with boundary and small-magnitude bias
        switch (below(6)) {
        case 0: return lo + static_cast<i64>(below(std::min<u64>(4, static_cast<u64>(hi) - static_cast<u64>(lo) + 1)));
        case 1: return hi - static_cast<i64>(below(std::min<u64>(4, static_cast<u64>(hi) - static_cast<u64>(lo) + 1)));
        case 2: { i64 a = std::max<i64>(lo, -10), b = std::min<i64>(hi, 10); return a <= b ? range(a, b) : range(lo, hi); }
        case 3: { // power of two neighbourhood
            i64 p = i64(1) << below(62); p += range(-1, 1); if (flag()) p = -p;
            return std::min(hi, std::max(lo, p)); }
        default: return range(lo, hi);
        }
    }
    double unit() { return static_cast<double>(upto((u64(1) << 53) - 1)) / static_cast<double>(u64(1) << 53); }
    double real(double lo, double hi) {   // plain uniform, simple values first
        switch (below(4)) {
        case 0: { double k = std::floor(lo) + static_cast<double>(below(static_cast<u64>(std::max(1.0, std::min(hi - lo + 1, 1000.0))))); return std::min(hi, std::max(lo, k)); }
        default: return std::min(hi, lo + (hi - lo) * unit());
        }
    }
    // log-uniform magnitude with sign
    double scaled(double emin, double emax, bool sign = true) {
        double m = std::pow(10.0, emin + (emax - emin) * unit());
        return sign && flag() ? -m : m;
    }
    std::string text_of(const std::string& alphabet, std::size_t n) {
        std::string s(n, ' '); for (auto& ch : s) ch = alphabet[below(alphabet.size())]; return s;
    }
    std::string raw(std::size_t n) { std::string s(n, 0); for (auto& ch : s) ch = static_cast<char>(below(256)); return s; }
    // bulk bytes from a single draw (keeps the tape short)
    std::string bulk(std::size_t n) {
        Rng r(upto(~u64(0))); std::string s(n, 0); u64 v = 0;
        for (std::size_t i = 0; i < n; i++) { if (i % 8 == 0) v = r.next(); s[i] = static_cast<char>(v & 255); v >>= 8; }
        return s;
    }

    // ---- bookkeeping -----------------------------------------------------
    void label(const std::string& l) { labels.push_back(l); }
    void label(bool b, const std::string& l) { if (b) labels.push_back(l); }
    void nontrivial(bool b = true) { if (b) nontriv = true; }
    template <class F> void say(F f) { if (describe) { std::ostringstream o; o << std::setprecision(17); f(o); say_s(o.str()); } }
    int fd = -1;           // the description is written as it grows, so that it survives a crash of the case
    void say_s(const std::string& s) { if (!describe) return; text += s + "\n"; if (fd >= 0) { std::string l = s + "\n"; if (write(fd, l.data(), l.size()) < 0) fd = -1; } }
};

#define PBT_SAY(c, expr) (c).say([&](std::ostream& o) { o << expr; })
#define PBT_FAIL(expr) do { std::ostringstream o_; o_ << std::setprecision(17) << expr; throw ::pbt::Fail{o_.str()}; } while (0)
#define PBT_CHECK(cond, expr) do { if (!(cond)) PBT_FAIL(expr); } while (0)
#define PBT_EQ(a, b, what) do { auto a_ = (a); auto b_ = (b); if (!(a_ == b_)) PBT_FAIL(what << ": got " << a_ << ", expected " << b_); } while (0)

struct Prop { const char* name; u64 quick, thorough; void (*fn)(Case&); };
inline std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
struct Known { const char* key; const char* text; void (*fn)(Case&); };
inline std::vector<Known>& knowns() { static std::vector<Known> v; return v; }
struct Reg { Reg(const char* n, u64 q, u64 t, void (*f)(Case&)) { props().push_back(Prop{n, q, t, f}); } };
struct RegK { RegK(const char* k, const char* t, void (*f)(Case&)) { knowns().push_back(Known{k, t, f}); } };

// PBT_PROP(name, cases in the quick tier, cases in the thorough tier)
#define PBT_PROP(name, quick, thorough) \
    static void prop_##name(::pbt::Case& c); \
    static ::pbt::Reg reg_##name(#name, quick, thorough, prop_##name); \
    static void prop_##name(::pbt::Case& c)
// A known finding: one specific input, run on every check.  Fails -> KNOWN-FINDING if the key is listed.
#define PBT_KNOWN(key, text) \
    static void known_##key(::pbt::Case& c); \
    static ::pbt::RegK regk_##key(#key, text, known_##key); \
    static void known_##key(::pbt::Case& c)

extern const char* const property_id;   // defined by each harness
extern const char* const property_rule; // how cases are made, what is non-trivial

inline std::string demangle(const char* n) { int st = 0; char* d = abi::__cxa_demangle(n, 0, 0, &st); std::string s = st == 0 && d ? d : n; std::free(d); return s; }

// Runs a property; returns empty string if it held, otherwise a message.  "\x01" = discarded.
inline std::string guarded(void (*fn)(Case&), Case& c) {
    try { fn(c); return ""; }
    catch (const Fail& f) { return f.msg.empty() ? "assertion failed" : f.msg; }
    catch (const Discard&) { return "\x01"; }
    catch (const std::exception& e) { return "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what(); }
    catch (...) { return "unexpected exception of unknown type"; }
}

inline void rm_rf(const std::string& d);
inline void empty_dir(const std::string& d) {     // every case starts with an empty scratch directory
    DIR* p = opendir(d.c_str()); if (!p) { mkdir(d.c_str(), 0700); return; }
    while (dirent* e = readdir(p)) {
        if (std::strcmp(e->d_name, ".") == 0 || std::strcmp(e->d_name, "..") == 0) continue;
        std::string f = d + "/" + e->d_name; if (unlink(f.c_str()) != 0) rm_rf(f);
    }
    closedir(p);
}
inline void rm_rf(const std::string& d) {
    DIR* p = opendir(d.c_str()); if (!p) return;
    while (dirent* e = readdir(p)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string f = d + "/" + n; struct stat st;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(f); else unlink(f.c_str());
    }
    closedir(p); rmdir(d.c_str());
}

#ifndef PBT_CPU_LIMIT
#define PBT_CPU_LIMIT 20      // CPU seconds for one case (typical cases take microseconds to milliseconds)
#endif
#ifndef PBT_AS_LIMIT_MB
#define PBT_AS_LIMIT_MB 2500  // address-space limit of a worker in builds without AddressSanitizer
#endif

inline void arm(bool on, int secs = PBT_CPU_LIMIT) {
    itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = on ? secs : 0; setitimer(ITIMER_PROF, &t, 0);
}
inline void limits() {
#if !defined(__SANITIZE_ADDRESS__)
    rlimit r; r.rlim_cur = r.rlim_max = u64(PBT_AS_LIMIT_MB) << 20; setrlimit(RLIMIT_AS, &r);
#endif
    rlimit core; core.rlim_cur = core.rlim_max = 0; setrlimit(RLIMIT_CORE, &core);
    rlimit fs; getrlimit(RLIMIT_FSIZE, &fs); fs.rlim_cur = std::min<u64>(fs.rlim_max, u64(512) << 20); setrlimit(RLIMIT_FSIZE, &fs);   // soft: see sparse_files
}

// lifts the file-size limit for one case that uses sparse files
struct sparse_files { rlimit old; sparse_files() { getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = std::min<u64>(old.rlim_max, u64(64) << 30); setrlimit(RLIMIT_FSIZE, &r); signal(SIGXFSZ, SIG_IGN); }
    ~sparse_files() { setrlimit(RLIMIT_FSIZE, &old); } };

struct Outcome { bool failed = false; bool discarded = false; std::string msg, text; std::vector<u64> tape; bool nontriv = false; };

struct Engine {
    std::string tier = "quick", scratch, out_json, replay_dir; u64 seed = 1; int workers = 8; double wall_cap = 300;
    double scale = 1;

    Shared* map_shared() {
        void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        std::memset(p, 0, 512); return static_cast<Shared*>(p);
    }
    static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

    static std::string died(int st) {
        std::ostringstream o;
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGPROF) o << "no termination within " << PBT_CPU_LIMIT << " s of CPU time";
            else o << "killed by signal " << s << " (" << strsignal(s) << ")";
        } else if (WIFEXITED(st)) o << "process ended with status " << WEXITSTATUS(st) << " (sanitizer report or exit)";
        return o.str();
    }

    // run one tape in a fork
    Outcome run_tape(void (*fn)(Case&), const std::vector<u64>& tape, bool describe, bool keep_stderr = false, int cpu = PBT_CPU_LIMIT) {
        Shared* sh = map_shared(); Outcome r;
        std::string d = scratch + "/one"; mkdir(d.c_str(), 0700);
        std::string tf = scratch + "/text"; unlink(tf.c_str());
        pid_t p = fork();
        if (p == 0) {
            limits();
            int n = open(keep_stderr ? (scratch + "/stderr").c_str() : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(n, 1); dup2(n, 2);
            Case c; c.mode = Case::REPLAY; c.in = tape.data(); c.in_len = tape.size(); c.sh = sh; c.describe = describe; c.dir = d; if (describe) c.fd = open(tf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            arm(true, cpu); std::string m = guarded(fn, c); arm(false);
            std::strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
            sh->case_no = c.nontriv;
            sh->state = m.empty() ? 1 : m == "\x01" ? 3 : 2;
            _exit(0);
        }
        int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        r.tape.assign(sh->tape, sh->tape + std::min<u64>(u64(sh->len), TAPE_CAP));
        if (sh->state == 1) r.failed = false;
        else if (sh->state == 3) r.discarded = true;
        else if (sh->state == 2) { r.failed = true; r.msg = sh->msg; }
        else { r.failed = true; r.msg = died(st); }
        r.nontriv = sh->case_no != 0;
        if (describe) { std::ifstream i(tf); std::stringstream ss; ss << i.rdbuf(); r.text = ss.str(); }
        munmap(sh, sizeof(Shared)); rm_rf(d);
        return r;
    }

    static std::string kind(const std::string& m) {   // failures are shrunk within their kind
        if (m.find("no termination") == 0) return "hang";
        if (m.find("killed by") == 0 || m.find("process ended") == 0) return "crash";
        if (m.find("unexpected exception") == 0) return m.substr(0, m.find(':'));
        return m.substr(0, std::min<std::size_t>(m.find_first_of(":0123456789"), 40));
    }

    std::vector<u64> shrink(void (*fn)(Case&), std::vector<u64> best, const std::string& k, std::string& msg) {
        double t0 = now(), cap = 60; int tries = 0;
        auto better = [&](const std::vector<u64>& a, const std::vector<u64>& b) {
            if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
        auto attempt = [&](std::vector<u64> cand) {
            if (++tries > 3000 || now() - t0 > cap) return false;
            Outcome o = run_tape(fn, cand, false, false, k == "hang" ? PBT_CPU_LIMIT : 3);
            if (!o.failed || kind(o.msg) != k) return false;
            std::vector<u64> t = o.tape;
            if (t.size() > cand.size()) { bool tail0 = true; for (std::size_t i = cand.size(); i < t.size(); i++) tail0 = tail0 && t[i] == 0; if (tail0) t = cand; }
            while (!t.empty() && t.back() == 0) t.pop_back();
            if (!better(t, best)) return false;
            best = t; msg = o.msg; return true;
        };
        bool progress = true;
        while (progress && tries <= 3000 && now() - t0 < cap) {
            progress = false;
            for (std::size_t cut = best.size(); cut >= 1; cut /= 2)
                if (best.size() >= cut && attempt(std::vector<u64>(best.begin(), best.end() - cut))) { progress = true; break; }
            for (std::size_t blk : {64, 16, 8, 4, 3, 2, 1})
                for (std::size_t i = 0; i + blk <= best.size();) {
                    std::vector<u64> t(best); t.erase(t.begin() + i, t.begin() + i + blk);
                    if (attempt(t)) progress = true; else i += std::max<std::size_t>(1, blk / 2);
                    if (now() - t0 > cap) break;
                }
            for (std::size_t blk : {16, 4, 1})
                for (std::size_t i = 0; i < best.size(); i += blk) {
                    std::vector<u64> t(best); bool any = false;
                    for (std::size_t j = i; j < std::min(best.size(), i + blk); j++) { any = any || t[j]; t[j] = 0; }
                    if (any && attempt(t)) progress = true;
                }
            for (std::size_t i = 0; i < best.size(); i++) {
                u64 lo = 0;
                for (int it = 0; it < 70 && i < best.size() && best[i] > lo; it++) {
                    u64 mid = lo + (best[i] - lo) / 2; std::vector<u64> t(best); t[i] = mid;
                    if (attempt(t)) progress = true; else lo = mid + 1;
                }
            }
        }
        return best;
    }

    static std::string jstr(const std::string& s) {
        std::string o = "\"";
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
            else if (ch == '\n') o += "\\n";
            else if (ch < 32 || ch >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += static_cast<char>(ch);
        }
        return o + "\"";
    }

    std::string write_replay(const Prop& p, const Outcome& o, const std::string& how) {
        mkdir(replay_dir.c_str(), 0755);
        std::string f = replay_dir + "/" + property_id + "-" + p.name + ".replay";
        std::ofstream w(f);
        w << "property " << property_id << "\nprop " << p.name << "\ntape";
        for (u64 v : o.tape) w << ' ' << v;
        w << "\n--- failure (" << how << ")\n" << o.msg << "\n--- minimal case\n" << o.text << "\n";
        return f;
    }

    int report(const Prop& p, const std::vector<u64>& tape, const std::string& first_msg) {
        std::string msg = first_msg;
        int again = 0; for (int i = 0; i < 3; i++) { Outcome o = run_tape(p.fn, tape, false); if (o.failed) { again++; msg = o.msg; } }
        if (again < 3) {
            for (int i = 0; i < 7; i++) if (run_tape(p.fn, tape, false).failed) again++;
            if (again < 5) { std::printf("NOTE %s/%s: a failure (%s) replayed %d/10 times on its own\n", property_id, p.name, printable(first_msg).c_str(), again); return 0; }
        }
        std::vector<u64> small = shrink(p.fn, tape, kind(msg), msg);
        Outcome o = run_tape(p.fn, small, true, true);
        int ok = 0; for (int i = 0; i < 3; i++) ok += run_tape(p.fn, small, false).failed;
        if (!o.failed || ok < 3) { small = tape; o = run_tape(p.fn, small, true, true); }
        if (o.msg.find("status") != std::string::npos || o.msg.find("signal") != std::string::npos) {
            std::ifstream i(scratch + "/stderr"); std::string l; int n = 0;
            while (std::getline(i, l) && n < 30) if (l.find("ERROR") != std::string::npos || l.find("    #") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssertion") != std::string::npos) { o.msg += "\n  " + l; n++; }
        }
        o.tape = small;
        std::string f = write_replay(p, o, "tier " + tier);
        std::printf("%s/%s FAILED: %s\n%s", property_id, p.name, printable(o.msg, 2000).c_str(), o.text.c_str());
        std::printf("VIOLATION property=%s replay=%s\n", property_id, f.c_str());
        std::fflush(stdout);
        return 1;
    }

    // ---- failures that need the cases that ran before them in the same process (state kept by the code under test) ----
    typedef std::vector<std::pair<std::size_t, u64>> Seq;
    Seq worker_cases(int w, const std::vector<u64>& quota, std::size_t fp, u64 fi) {   // what worker() runs up to case (fp, fi)
        Seq v; std::vector<u64> next(quota.size(), 0); const u64 BLOCK = 64;
        for (u64 step = 0; step < BLOCK; step++) for (std::size_t p = 0; p < quota.size(); p++) {
            u64 hi = step + 1 == BLOCK ? quota[p] : quota[p] * (step + 1) / BLOCK;
            for (u64 i = next[p]; i < hi; i++) if (i % workers == static_cast<u64>(w)) { v.push_back({p, i}); if (p == fp && i == fi) return v; }
            next[p] = hi;
        }
        return v;
    }
    Outcome run_seq(const Seq& q, bool describe = false) {   // failed only if the last case of the sequence fails
        Shared* sh = map_shared(); Outcome r; std::string d = scratch + "/one", tf = scratch + "/text"; unlink(tf.c_str());
        pid_t p = fork();
        if (p == 0) {
            limits(); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
            for (std::size_t k = 0; k < q.size(); k++) {
                empty_dir(d); Case c = make(props()[q[k].first], q[k].second, sh); c.dir = d; bool last = k + 1 == q.size(); c.describe = last && describe; sh->len = 0; sh->state = last ? 5 : 4;
                arm(true); std::string m = guarded(props()[q[k].first].fn, c); arm(false);
                if (c.describe) { std::ofstream o(tf); o << c.text; }
                if (!m.empty() && m != "\x01") { std::strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1); sh->state = last ? 2 : 3; _exit(0); }
            }
            sh->state = 1; _exit(0);
        }
        int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (sh->state == 2) { r.failed = true; r.msg = sh->msg; } else if (sh->state == 5) { r.failed = true; r.msg = died(st); }
        r.tape.assign(sh->tape, sh->tape + std::min<u64>(u64(sh->len), TAPE_CAP));
        if (describe) { std::ifstream i(tf); std::stringstream ss; ss << i.rdbuf(); r.text = ss.str(); }
        munmap(sh, sizeof(Shared)); rm_rf(d); return r;
    }
    int report_history(int w, const std::vector<u64>& quota, std::size_t fp, u64 fi) {
        Seq q = worker_cases(w, quota, fp, fi);
        if (!run_seq(q).failed || !run_seq(q).failed) return 0;
        double t0 = now();
        for (std::size_t n = 2; n < q.size(); n *= 2) { Seq t(q.end() - static_cast<long>(n), q.end()); if (run_seq(t).failed) { q = t; break; } }
        for (std::size_t blk = q.size() / 2; blk >= 1 && now() - t0 < 60; blk /= 2)
            for (std::size_t i = 0; i + blk < q.size() && now() - t0 < 60;) { Seq t(q); t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + blk)); if (run_seq(t).failed) q = t; else i += blk; }
        Outcome o = run_seq(q, true); if (!o.failed) return 0;
        mkdir(replay_dir.c_str(), 0755); std::string f = replay_dir + "/" + property_id + "-" + props()[fp].name + ".replay"; std::ofstream r(f);
        r << "property " << property_id << "\nprop " << props()[fp].name << "\nsequence " << seed; for (auto& x : q) r << ' ' << props()[x.first].name << ' ' << x.second;
        r << "\n--- failure of the last of these cases, run in one process\n" << o.msg << "\n--- last case\n" << o.text << "\n"; r.close();
        std::printf("%s/%s FAILED after %zu earlier cases in the same process: %s\n%s", property_id, props()[fp].name, q.size() - 1, printable(o.msg, 2000).c_str(), o.text.c_str());
        std::printf("VIOLATION property=%s replay=%s\n", property_id, f.c_str()); std::fflush(stdout); return 1;
    }

    int replay(const std::string& file) {
        std::ifstream i(file); std::string l, pn; std::vector<u64> tape;
        while (std::getline(i, l)) {
            std::istringstream s(l); std::string k; s >> k;
            if (k == "prop") s >> pn;
            else if (k == "tape") { u64 v; while (s >> v) tape.push_back(v); break; }
            else if (k == "sequence") {
                Seq q; std::string name; u64 v; s >> seed; while (s >> name >> v) for (std::size_t p = 0; p < props().size(); p++) if (name == props()[p].name) q.push_back({p, v});
                Outcome o = run_seq(q, true); std::printf("%s", o.text.c_str());
                if (o.failed) { std::printf("FAILED: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), property_id, file.c_str()); return 1; }
                std::printf("replay %s: holds\n", file.c_str()); return 0;
            }
        }
        for (auto& p : props()) if (pn == p.name) {
            Outcome o = run_tape(p.fn, tape, true, true);
            std::printf("%s", o.text.c_str());
            if (o.failed) { std::printf("FAILED: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), property_id, file.c_str()); return 1; }
            std::printf("replay %s: holds\n", file.c_str()); return 0;
        }
        std::printf("replay file names no property of this harness\n"); return 2;
    }

    // a libFuzzer input: decode it (first byte: property, rest: draws), then treat it like any other failing case
    int from_bytes(const std::string& file) {
        std::ifstream i(file, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); std::string b = ss.str();
        if (b.empty()) return 0;
        auto& ps = props(); Prop& p = ps[static_cast<unsigned char>(b[0]) % ps.size()];
        Shared* s = map_shared(); std::string d = scratch + "/one"; mkdir(d.c_str(), 0700);
        pid_t q = fork();
        if (q == 0) {
            limits(); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
            Case c; c.mode = Case::BYTES; c.bytes = reinterpret_cast<const std::uint8_t*>(b.data()) + 1; c.nbytes = b.size() - 1; c.sh = s; c.dir = d;
            arm(true); guarded(p.fn, c); _exit(0);
        }
        int st; while (waitpid(q, &st, 0) < 0 && errno == EINTR) {}
        std::vector<u64> tape(s->tape, s->tape + std::min<u64>(u64(s->len), TAPE_CAP)); rm_rf(d);
        Outcome o = run_tape(p.fn, tape, false);
        if (!o.failed) { std::printf("libFuzzer input does not fail when replayed\n"); return 0; }
        return report(p, tape, o.msg);
    }

    int run() {
        double t0 = now(); auto& ps = props();
        if (ps.size() > 64) return 2;
        std::vector<u64> quota; u64 total = 0;
        for (auto& p : ps) { u64 n = static_cast<u64>((tier == "quick" ? p.quick : p.thorough) * scale); if (!n) n = 1; quota.push_back(n); total += n; }
        // interleave properties proportionally: global case g -> (prop, index)
        int attempt = 0;
    again:
        attempt++;
        std::vector<Shared*> sh; std::vector<pid_t> pid; std::vector<bool> alive;
        for (int w = 0; w < workers; w++) {
            sh.push_back(map_shared());
            pid_t p = fork();
            if (p == 0) { worker(w, sh[w], quota, t0); _exit(0); }
            pid.push_back(p); alive.push_back(true);
        }
        int left = workers, bad = -1; int bad_st = 0;
        std::vector<std::string> wmsg(workers);
        while (left > 0) {
            int st; pid_t p = waitpid(-1, &st, 0);
            if (p < 0) { if (errno == EINTR) continue; break; }
            for (int w = 0; w < workers; w++) if (pid[w] == p) {
                alive[w] = false; left--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    if (bad < 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && bad >= 0)) { bad = w; bad_st = st;
                        for (int v = 0; v < workers; v++) if (alive[v]) kill(pid[v], SIGKILL); }
                }
            }
        }
        // statistics
        u64 eval = 0; std::map<std::string, u64> labels; std::vector<u64> per(ps.size(), 0); std::vector<u64> hashes; u64 disc = 0, nontriv_total = 0;
        for (int w = 0; w < workers; w++) {
            std::ifstream i(scratch + "/stats" + std::to_string(w)); std::string l;
            while (std::getline(i, l)) {
                std::istringstream s(l); std::string k; s >> k;
                if (k == "eval") { std::size_t p; u64 n; s >> p >> n; eval += n; per[p] += n; }
                else if (k == "disc") { u64 n; s >> n; disc += n; }
                else if (k == "nt") { u64 n; s >> n; nontriv_total += n; }
                else if (k == "label") { u64 n; s >> n; std::string rest; std::getline(s, rest); labels[rest.substr(1)] += n; }
            }
            std::ifstream h(scratch + "/hash" + std::to_string(w), std::ios::binary); u64 v;
            while (h.read(reinterpret_cast<char*>(&v), 8)) hashes.push_back(v);
        }
        std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        int rc = 0; u64 violations = 0;
        if (bad >= 0) {
            Shared* s = sh[bad]; std::size_t pi = s->prop;
            std::vector<u64> tape(s->tape, s->tape + std::min<u64>(u64(s->len), TAPE_CAP));
            std::string m = s->state == 2 ? std::string(s->msg) : died(bad_st);
            if (s->state == 1 || s->state == 2) {
                rc = report(ps[pi], tape, m);
                if (rc == 0) rc = report_history(bad, quota, pi, s->case_no);
                // neither the case nor its history fails again: run everything once more; a second failure is reported as it is
                if (rc == 0 && attempt == 1) { eval = 0; goto again; }
                if (rc == 0) { Outcome o; o.tape = tape; o.msg = m + " (failed in two runs, but not when replayed)"; std::string f = write_replay(ps[pi], o, "not reproducible on its own"); std::printf("%s/%s FAILED: %s\nVIOLATION property=%s replay=%s\n", property_id, ps[pi].name, printable(o.msg).c_str(), property_id, f.c_str()); rc = 1; }
            }
            else { std::printf("worker ended outside a case: %s\n", died(bad_st).c_str()); rc = 2; }
            violations = rc == 1;
        }
        // known findings
        for (auto& k : knowns()) {
            Outcome o = run_tape(k.fn, std::vector<u64>(), true, true);
            if (!o.failed) { std::printf("NOTE known-finding probe %s/%s no longer fails\n", property_id, k.key); continue; }
            std::string listed = known_text(k.key);
            if (!listed.empty()) std::printf("KNOWN-FINDING: property=%s %s\n", property_id, listed.c_str());
            else {
                Prop p{k.key, 0, 0, k.fn}; o.tape.clear(); std::string f = write_replay(p, o, "known-finding probe that is not listed");
                std::printf("%s/%s FAILED: %s\nVIOLATION property=%s replay=%s\n", property_id, k.key, printable(o.msg).c_str(), property_id, f.c_str()); rc = 1; violations++;
            }
        }
        // samples: rerun a few cases in describe mode
        std::vector<std::string> samples;
        for (std::size_t p = 0; p < ps.size(); p++) {
            int got = 0;
            for (u64 i = 0; i < 12 && got < (ps.size() > 6 ? 1 : 2); i++) {
                Outcome o = sample(ps[p], i);
                if (o.failed || o.discarded || !o.nontriv || o.text.empty()) continue;
                std::string t = o.text; if (t.size() > 900) t = t.substr(0, 900) + " ...";
                samples.push_back(std::string(ps[p].name) + " #" + std::to_string(i) + ": " + t); got++;
            }
        }
        std::ofstream j(out_json);
        j << "{\n \"evaluations\": " << eval << ",\n \"distinct_nontrivial\": " << hashes.size() << ",\n \"nontrivial\": " << nontriv_total
          << ",\n \"discarded\": " << disc << ",\n \"planned\": " << total << ",\n \"rule\": " << jstr(property_rule) << ",\n \"per_property\": {";
        for (std::size_t p = 0; p < ps.size(); p++) j << (p ? ", " : "") << jstr(ps[p].name) << ": " << per[p];
        j << "},\n \"labels\": {"; bool first = true;
        for (auto& l : labels) { j << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
        j << "},\n \"samples\": [";
        for (std::size_t i = 0; i < samples.size(); i++) j << (i ? ",\n  " : "\n  ") << jstr(samples[i]);
        j << "],\n \"violations\": " << violations << ",\n \"explore_s\": " << now() - t0 << "\n}\n";
        j.close();
        std::printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %.1f s\n", property_id, tier.c_str(), (unsigned long long)seed, (unsigned long long)eval, hashes.size(), now() - t0);
        return rc;
    }

    std::string known_text(const std::string& key) {
        const char* f = std::getenv("PBT_KNOWN_FILE"); if (!f) return "";
        std::ifstream i(f); std::string l, want = std::string("known: property=") + property_id + " key=" + key + " ";
        while (std::getline(i, l)) if (l.compare(0, want.size(), want) == 0) return l.substr(want.size());
        return "";
    }

    Case make(const Prop& p, u64 i, Shared* s) {
        Case c; c.mode = Case::RANDOM; c.sh = s; c.index = i;
        c.rng = Rng(mix(mix(seed) ^ hash_str(std::string(property_id) + "/" + p.name) ^ mix(i * 0x9E3779B97F4A7C15ULL + 77)));
        return c;
    }

    Outcome sample(const Prop& p, u64 i) {
        Shared* s = map_shared(); Outcome r;
        std::string d = scratch + "/one"; mkdir(d.c_str(), 0700); std::string tf = scratch + "/text"; unlink(tf.c_str());
        pid_t q = fork();
        if (q == 0) {
            limits(); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
            Case c = make(p, i, s); c.describe = true; c.dir = d; arm(true); std::string m = guarded(p.fn, c);
            std::ofstream o(tf); o << c.text; o.flush(); s->case_no = c.nontriv; s->state = m.empty() ? 1 : 2; _exit(0);
        }
        int st; while (waitpid(q, &st, 0) < 0 && errno == EINTR) {}
        r.failed = s->state != 1; r.nontriv = s->case_no != 0;
        std::ifstream in(tf); std::stringstream ss; ss << in.rdbuf(); r.text = ss.str();
        munmap(s, sizeof(Shared)); rm_rf(d); return r;
    }

    void worker(int w, Shared* s, const std::vector<u64>& quota, double t0) {
        limits();
        int n = open("/dev/null", O_WRONLY); dup2(n, 1);
        { int e = open((scratch + "/err" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); }
        auto& ps = props(); std::string d = scratch + "/w" + std::to_string(w);
        std::map<std::string, u64> labels; std::vector<u64> per(ps.size(), 0); std::vector<u64> hashes; u64 disc = 0, nt = 0;
        u64 maxq = 0; for (u64 q : quota) maxq = std::max(maxq, q);
        // round r in [0, maxq): property p runs its case i when r crosses i*maxq/quota[p]
        std::vector<u64> next(ps.size(), 0);
        bool stop = false;
        const u64 BLOCK = 64;
        auto flush = [&] {
            std::ofstream o(scratch + "/stats" + std::to_string(w));
            for (std::size_t p = 0; p < ps.size(); p++) o << "eval " << p << ' ' << per[p] << '\n';
            o << "disc " << disc << "\nnt " << nt << '\n';
            for (auto& l : labels) o << "label " << l.second << ' ' << l.first << '\n';
            o.close();
            std::ofstream h(scratch + "/hash" + std::to_string(w), std::ios::binary);
            h.write(reinterpret_cast<const char*>(hashes.data()), hashes.size() * 8);
        };
        for (u64 step = 0; step < BLOCK && !stop; step++)
            for (std::size_t p = 0; p < ps.size() && !stop; p++) {
                u64 hi = step + 1 == BLOCK ? quota[p] : quota[p] * (step + 1) / BLOCK;
                for (u64 i = next[p]; i < hi; i++) {
                    if (i % workers != static_cast<u64>(w)) continue;
                    if (now() - t0 > wall_cap) { stop = true; break; }
                    empty_dir(d);
                    s->case_no = i; s->prop = p; s->len = 0; s->state = 1;
                    Case c = make(ps[p], i, s); c.dir = d;
                    arm(true); std::string m = guarded(ps[p].fn, c); arm(false);
                    per[p]++;
                    if (m == "\x01") { disc++; s->state = 0; continue; }
                    if (!m.empty()) { std::strncpy(s->msg, m.c_str(), sizeof(s->msg) - 1); s->state = 2; flush(); _exit(1); }
                    s->state = 0;
                    if (c.nontriv) { nt++; if (hashes.size() < 4000000) hashes.push_back(mix(c.sig ^ (p + 1))); }
                    for (auto& l : c.labels) labels[std::string(ps[p].name) + "/" + l]++;
                }
                next[p] = hi;
            }
        flush();
        rm_rf(d);
    }
};

#ifndef PBT_LIBFUZZER
inline int pbt_main(int argc, char** argv) {
    Engine e; std::string replay, emit; std::string base = std::getenv("PBT_SCRATCH") ? std::getenv("PBT_SCRATCH") : "/tmp";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") e.tier = val(); else if (a == "--seed") e.seed = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--out") e.out_json = val(); else if (a == "--replay-dir") e.replay_dir = val();
        else if (a == "--workers") e.workers = std::atoi(val().c_str()); else if (a == "--wall") e.wall_cap = std::atof(val().c_str());
        else if (a == "--scale") e.scale = std::atof(val().c_str()); else if (a == "--replay") replay = val(); else if (a == "--bytes") emit = val();
        else if (a == "--only") { std::string n = val(); auto& ps = props(); ps.erase(std::remove_if(ps.begin(), ps.end(), [&](const Prop& p) { return n != p.name; }), ps.end()); }
    }
    std::string t = base + "/pbt_" + property_id + "_XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); return 2; }
    e.scratch = b.data();
    int rc = !emit.empty() ? e.from_bytes(emit) : replay.empty() ? e.run() : e.replay(replay);
    rm_rf(e.scratch);
    return rc;
}
} // namespace pbt
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#else
} // namespace pbt
// libFuzzer entry: first byte selects the property, the rest is decoded into draws.  On failure the tape is
// written to $PBT_FUZZ_OUT as a replay file and the process aborts.
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    using namespace pbt;
    static Shared* sh = new Shared(); static std::string dir;
    if (dir.empty()) { dir = std::string(std::getenv("PBT_SCRATCH") ? std::getenv("PBT_SCRATCH") : "/tmp") + "/lf_" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); }
    if (size < 1) return 0;
    auto& ps = props(); Prop& p = ps[data[0] % ps.size()]; empty_dir(dir);
    Case c; c.mode = Case::BYTES; c.bytes = data + 1; c.nbytes = size - 1; c.sh = sh; c.dir = dir; sh->len = 0;
    // written before the run, so that a sanitizer abort leaves it too
    static const char* outf = std::getenv("PBT_FUZZ_OUT");
    std::string m = guarded(p.fn, c);
    if (!m.empty() && m != "\x01") {
        std::ofstream w(outf ? outf : "/dev/stderr");
        w << "property " << property_id << "\nprop " << p.name << "\ntape";
        for (u64 i = 0; i < std::min<u64>(u64(sh->len), TAPE_CAP); i++) w << ' ' << sh->tape[i];
        w << "\n--- failure (libFuzzer)\n" << m << "\n"; w.close();
        std::fprintf(stderr, "PROPERTY FAILED %s/%s: %s\n", property_id, p.name, m.c_str());
        __builtin_trap();
    }
    return 0;
}
#endif
