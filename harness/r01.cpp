// R01: the random device delivers the device's bytes or an error.
#include "pbt.hpp"
#include <boost/random/random_device.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/system/system_error.hpp>
#include <list>
#include <memory>
#include <set>
#include <thread>
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
const char* pbt_rule = "a case counts as non-trivial when at least one value was compared with the bytes of a source, or an error was injected and observed; distinctness is over contents, fragmentation, ends and operations";
// read() of this program: may return less, or fail, when a case asks for it
namespace vf { struct Fault { bool on; std::vector<int> plan; std::size_t at; u_int64_t calls; }; static Fault fault; }
extern "C" ssize_t read(int fd, void* p, size_t n) {
    if (vf::fault.on) { ++vf::fault.calls; int k = vf::fault.at < vf::fault.plan.size() ? vf::fault.plan[vf::fault.at++] : 0; if (k < 0) { errno = -k; return -1; } if (k > 0 && (size_t)k < n) n = (size_t)k; }
    return syscall(SYS_read, fd, p, n);
}
namespace vf {
using pbt::Ctx; using pbt::u64; using pbt::str; typedef unsigned char byte; typedef boost::random::random_device RD;
struct Scratch { std::string dir; Scratch() { char t[] = "/tmp/verif_r01_XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("no scratch directory"); dir = t; } ~Scratch() { static const char* const N[] = { "a", "b", "f", "l", "d" }; for (const char* n : N) { ::unlink((dir + "/" + n).c_str()); } ::rmdir((dir + "/d").c_str()); ::rmdir(dir.c_str()); } std::string operator()(const char* n) const { return dir + "/" + n; } };
static std::vector<byte> bytes(Ctx& c, std::size_t n) { std::vector<byte> v(n); u64 k = c.s.choose(3), x = c.s.choose(~0ull); for (std::size_t i = 0; i < n; ++i) { x = pbt::mix(x + i); v[i] = k == 0 ? (byte)(i + 1) : k == 1 ? (x & 1 ? 0xff : 0) : (byte)(x >> 17); } return v; }
static void put(const std::string& path, const byte* p, std::size_t n, bool append = false) { FILE* f = fopen(path.c_str(), append ? "ab" : "wb"); if (!f) throw std::runtime_error("cannot write a scratch file"); if (n) fwrite(p, 1, n, f); fclose(f); }
static std::set<int> fds() { std::set<int> s; DIR* d = opendir("/proc/self/fd"); if (!d) return s; int own = dirfd(d); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') { int k = atoi(e->d_name); if (k != own) s.insert(k); } closedir(d); return s; }
static unsigned word(const std::vector<byte>& v, std::size_t at) { unsigned x; std::memcpy(&x, &v[at], sizeof x); return x; }
// an expected error: a system error, nothing else; returns its code
template<class F> static int error(Ctx& c, const char* what, F f) { try { f(); } catch (const boost::system::system_error& e) { ++c.evals; REQUIRE(c, e.code().value() == 0 || e.code().category() == boost::system::system_category() || e.code().category() == boost::system::generic_category(), what << ": error of another category"); return e.code().value(); } catch (const std::exception& e) { REQUIRE(c, false, what << ": throws something else than a system error: " << e.what()); } REQUIRE(c, false, what << ": no error is raised"); return 0; }
// k values from the device, one by one or by range
static std::vector<unsigned> take(Ctx& c, RD& d, std::size_t k, int how) {
    std::vector<unsigned> r(k); switch (how) { case 0: for (unsigned& x : r) x = d(); break; case 1: d.generate(r.begin(), r.end()); break; case 2: { std::unique_ptr<unsigned[]> a(new unsigned[k]); d.generate(a.get(), a.get() + k); std::copy(a.get(), a.get() + k, r.begin()); break; } case 3: { std::list<u64> l(k); d.generate(l.begin(), l.end()); std::copy(l.begin(), l.end(), r.begin()); for (u64 x : l) REQUIRE(c, x <= 0xffffffffull, "a wide element holds " << x); break; }
    default: { std::vector<u64> l(k + 2, 7); d.generate(l.begin() + 1, l.end() - 1); REQUIRE(c, l.front() == 7 && l.back() == 7, "generate wrote outside its range"); std::copy(l.begin() + 1, l.end() - 1, r.begin()); } } return r;
}
static void compare(Ctx& c, const std::vector<byte>& v, std::size_t at, const std::vector<unsigned>& r, const char* what) { for (std::size_t i = 0; i < r.size(); ++i) REQUIRE(c, r[i] == word(v, at + 4 * i), what << ": value " << i << " is " << r[i] << ", bytes " << at + 4 * i << " to " << at + 4 * i + 3 << " make " << word(v, at + 4 * i)); }
// several devices over files that end anywhere
static void files(Ctx& c) {
    Scratch s; std::size_t n = c.s.choose(60); std::vector<byte> v = bytes(c, n); put(s("a"), v.data(), n); NOTE(c, "file of " << n << " bytes"); std::set<int> before = fds();
    {
        std::vector<std::unique_ptr<RD> > d; std::vector<std::size_t> at; std::vector<int> dead; 
        for (u64 op = 0, N = 3 + c.s.choose(14); op < N; ++op) {
            if (d.empty() || c.s.chance(1, 5)) { d.emplace_back(new RD(s("a"))); at.push_back(0); dead.push_back(0); NOTE(c, "open"); continue; }
            std::size_t k = c.s.choose(d.size() - 1); if (c.s.chance(1, 8)) { d.erase(d.begin() + k); at.erase(at.begin() + k); dead.erase(dead.begin() + k); NOTE(c, "close"); continue; }
            if (c.s.chance(1, 8)) { std::size_t m = c.s.choose(9); std::vector<byte> w = bytes(c, m); put(s("a"), w.data(), m, true); v.insert(v.end(), w.begin(), w.end()); NOTE(c, m << " bytes more"); continue; }
            if (dead[k] == 1) continue; // bytes of an incomplete value may be gone
            std::size_t m = c.s.choose(5), can = (v.size() - at[k]) / 4; int how = (int)c.s.choose(4); NOTE(c, "device " << k << " takes " << m << " (" << how << ")");
            if (m <= can) { compare(c, v, at[k], take(c, *d[k], m, how), "file"); at[k] += 4 * m; c.nontrivial(m > 0); } else { if (can) { compare(c, v, at[k], take(c, *d[k], can, 0), "file"); at[k] += 4 * can; } error(c, "a value past the end of the file", [&] { (*d[k])(); }); c.label((v.size() - at[k]) % 4 ? "end inside a value" : "end between values"); if ((v.size() - at[k]) % 4) { at[k] = v.size(); if (c.s.coin()) error(c, "another value past the end of the file", [&] { (*d[k])(); }); dead[k] = 1; } c.nontrivial(); }
        }
    }
    REQUIRE(c, fds() == before, "descriptors are left open");
}
// a pipe whose bytes arrive in pieces
static void pieces(Ctx& c) {
    Scratch s; std::size_t n = c.s.choose(48); std::vector<byte> v = bytes(c, n); std::vector<std::size_t> cut; for (std::size_t i = 0; i < n; ) { std::size_t k = 1 + c.s.choose(c.s.coin() ? 2 : 8); if (i + k > n) k = n - i; cut.push_back(k); i += k; } { std::ostringstream o; for (std::size_t k : cut) o << " " << k; NOTE(c, "pieces of" << o.str() << " bytes"); }
    if (mkfifo(s("f").c_str(), 0600)) throw std::runtime_error("no fifo"); std::set<int> before = fds(); int w = open(s("f").c_str(), O_RDWR); std::size_t values = n / 4; bool past = c.s.coin(); int how = (int)c.s.choose(4);
    {
        RD d(s("f")); std::thread t([&] { std::size_t i = 0; for (std::size_t k : cut) { if (::write(w, &v[i], k) != (ssize_t)k) break; i += k; int left = 1; for (int q = 0; q < 20000; ++q) { if (ioctl(w, FIONREAD, &left) || left == 0) break; if (q < 200) std::this_thread::yield(); else { if (!past && q > 400 && i > 4 * values) break; usleep(100); } } } ::close(w); });
        struct Join { std::thread& t; ~Join() { t.join(); } } j = { t };
        std::vector<unsigned> r; std::size_t at = 0; while (at < values) { std::size_t m = 1 + c.s.choose(values - at - 1); r = take(c, d, m, how); compare(c, v, 4 * at, r, "pipe"); at += m; }
        if (past) { error(c, "a value from a closed pipe", [&] { d(); }); c.label(n % 4 ? "end inside a value" : "end between values"); } c.nontrivial(values > 0 || past); 
    }
    REQUIRE(c, fds() == before, "descriptors are left open"); c.label(cut.size() > values ? "values in pieces" : "whole values");
}
// two devices share one pipe: neither takes more bytes than it returns
static void shared(Ctx& c) {
    Scratch s; std::size_t n = 4 * (1 + c.s.choose(15)); std::vector<byte> v = bytes(c, n); if (mkfifo(s("f").c_str(), 0600)) throw std::runtime_error("no fifo"); int w = open(s("f").c_str(), O_RDWR); if (::write(w, v.data(), n) != (ssize_t)n) throw std::runtime_error("fifo");
    { RD a(s("f")), b(s("f")); ::close(w); std::size_t at = 0; while (at < n) { RD& d = c.s.coin() ? a : b; std::size_t m = c.s.choose(std::min<std::size_t>(3, (n - at) / 4)); compare(c, v, at, take(c, d, m, (int)c.s.choose(4)), "shared pipe"); at += 4 * m; } error(c, "a value from a closed pipe", [&] { a(); }); error(c, "a value from a closed pipe", [&] { b(); }); } c.nontrivial(n > 4);
}
// sources that cannot be opened or read
static void bad(Ctx& c) {
    Scratch s; std::set<int> before = fds(); std::string path; int code = -1; bool opens = false; const char* what = "";
    switch (c.enumerate(10)) {
    case 0: path = s("none"); code = ENOENT; what = "missing file"; break; case 1: path = ""; code = ENOENT; what = "empty name"; break; case 2: put(s("a"), 0, 0); path = s("a") + "/x"; code = ENOTDIR; what = "file as directory"; break; case 3: path = s("none") + std::string(300 + c.s.choose(5000), 'x'); code = ENAMETOOLONG; what = "long name"; break;
    case 4: if (symlink("l", s("l").c_str())) throw std::runtime_error("symlink"); path = s("l"); code = ELOOP; what = "symbolic link to itself"; break; case 5: mkdir(s("d").c_str(), 0700); path = s("d"); opens = true; code = EISDIR; what = "directory"; break; case 6: path = "/dev/null"; opens = true; what = "null device"; break; case 7: put(s("a"), 0, 0); path = s("a"); opens = true; what = "empty file"; break;
    case 8: path = s("none") + str(c.s.choose(~0ull)); code = ENOENT; what = "missing file"; break; default: { std::vector<byte> v = bytes(c, 1 + c.s.choose(2)); put(s("a"), v.data(), v.size()); path = s("a"); opens = true; what = "file of less than a value"; } }
    NOTE(c, what);
    if (!opens) { for (u64 k = 1 + c.s.choose(3); k; --k) { int got = error(c, what, [&] { RD d(path); }); REQUIRE(c, got == code, what << ": error code " << got << " instead of " << code); } }
    else { std::unique_ptr<RD> d; try { d.reset(new RD(path)); } catch (const boost::system::system_error&) {} if (d) for (u64 k = 1 + c.s.choose(3); k; --k) { unsigned x[3]; int got = c.s.coin() ? error(c, what, [&] { (*d)(); }) : error(c, what, [&] { d->generate(x, x + 3); }); if (code >= 0) REQUIRE(c, got == code, what << ": error code " << got << " instead of " << code); } }
    REQUIRE(c, fds() == before, what << ": descriptors are left open"); c.label(what); c.nontrivial();
}
// read() returns less or fails as the case plans
static void faults(Ctx& c) {
    Scratch s; std::size_t n = 8 + c.s.choose(60); std::vector<byte> v = bytes(c, n); put(s("a"), v.data(), n); RD d(s("a")); static const int E[] = { EIO, EAGAIN, EBADF, EINVAL, EFAULT, ENOMEM }; std::ostringstream o; std::size_t at = 0; bool failed = false; fault.plan.clear(); fault.at = 0; fault.calls = 0;
    for (u64 k = 0, N = 1 + c.s.choose(20); k < N; ++k) { int f = c.s.chance(1, 12) ? -E[c.s.choose(5)] : (int)c.s.choose(5); fault.plan.push_back(f); o << " " << f; } NOTE(c, "plan of read():" << o.str());
    struct Off { Off() { fault.on = true; } ~Off() { fault.on = false; } }; std::string other;
    while (at + 4 <= n && !failed) { unsigned x = 0; int code = -1; { Off off; try { x = d(); } catch (const boost::system::system_error& e) { failed = true; code = e.code().value(); } catch (const std::exception& e) { failed = true; other = e.what(); } } REQUIRE(c, other.empty(), "throws something else than a system error: " << other);
        if (!failed) { REQUIRE(c, x == word(v, at), "value at byte " << at << " is " << x << ", the bytes make " << word(v, at)); at += 4; } else { int last = fault.at ? fault.plan[fault.at - 1] : 0; REQUIRE(c, last < 0 && code == -last, "error " << code << " raised, read() failed with " << -last); } }
    bool planned = false; for (std::size_t i = 0; i < fault.at; ++i) planned = planned || fault.plan[i] < 0; REQUIRE(c, failed || !planned, "read() failed but no error was raised"); c.label(fault.calls == 0 ? "reads otherwise" : failed ? "failed" : "short reads"); c.nontrivial(at > 0 || failed);
}
// as a seed sequence and as an engine
struct Seq { typedef unsigned result_type; const std::vector<byte>& v; std::size_t at; template<class It> void generate(It f, It l) { for (; f != l; ++f, at += 4) *f = word(v, at); } };
struct Eng { typedef unsigned result_type; const std::vector<byte>& v; std::size_t at; static unsigned min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static unsigned max BOOST_PREVENT_MACRO_SUBSTITUTION () { return ~0u; } unsigned operator()() { at += 4; return word(v, at - 4); } };
static void uses(Ctx& c) {
    Scratch s; std::vector<byte> v = bytes(c, 4 * 2600); put(s("a"), v.data(), v.size()); RD d(s("a"));
    Seq q = { v, 0 };
    boost::random::mt19937 a, b; a.seed(d); b.seed(q); REQUIRE(c, a == b, "mt19937 seeded from the device differs from one seeded from its bytes"); boost::random::minstd_rand x, y; x.seed(d); y.seed(q); REQUIRE(c, x == y, "minstd_rand seeded from the device differs from one seeded from its bytes"); boost::random::mt19937_64 e(d), f(q); REQUIRE(c, e == f, "mt19937_64 seeded from the device differs");
    Eng g = { v, q.at }; boost::random::uniform_int_distribution<int> u(0, 999); for (int i = 0; i < 10; ++i) { int k = u(d); REQUIRE(c, k == u(g), "uniform_int over the device returns " << k); } c.nontrivial();
}
// the default device
static void standard(Ctx& c) {
    std::set<int> before = fds(); static const char* const N[] = { "", "/dev/urandom", "/dev/random" }; int which = (int)c.s.choose(2); NOTE(c, "device " << N[which]); { std::unique_ptr<RD> d(which ? new RD(N[which]) : new RD), e(which ? new RD(N[which]) : new RD); const std::size_t n = 4000; std::vector<unsigned> x = take(c, *d, n, (int)c.s.choose(4)), y = take(c, *e, 100, 0); REQUIRE(c, !std::equal(y.begin(), y.end(), x.begin()), "two devices return the same values"); for (int b = 0; b < 32; ++b) { int k = 0; for (unsigned w : x) k += w >> b & 1; REQUIRE(c, std::fabs(k - 2000.0) < 31.6 * 9, "bit " << b << " is set in " << k << " of 4000 values"); } std::set<unsigned> z(x.begin(), x.end()); REQUIRE(c, z.size() > 3990, "only " << z.size() << " different values of 4000");
    REQUIRE(c, d->entropy() >= 0 && d->entropy() <= 32, "entropy " << d->entropy()); REQUIRE(c, (RD::min)() == 0 && (RD::max)() == 0xffffffffu, "bounds"); RD o("/dev/zero"); for (unsigned w : take(c, o, 5, 1)) REQUIRE(c, w == 0, "a value from /dev/zero is " << w); } REQUIRE(c, fds() == before, "descriptors are left open"); c.label(which ? N[which] : "default"); c.nontrivial();
}
}
namespace pbt { void register_checks() {
    add("files", 20000, 300000, vf::files);
    add("pieces", 8000, 100000, vf::pieces);
    add("shared", 8000, 100000, vf::shared);
    add("bad", 4000, 40000, vf::bad);
    add("faults", 30000, 400000, vf::faults);
    add("uses", 500, 5000, vf::uses);
    add("standard", 200, 2000, vf::standard);
} }
