// D03: uniform reals.
#include "ureal.hpp"
#include "stat.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
namespace br = boost::random;
namespace mp = boost::multiprecision;
const char* pbt_rule = "a case counts as non-trivial when values were drawn with a script that contains extreme or arbitrary engine outputs, with every engine output, or in a statistical comparison with the uniform law; distinctness is over interface, type, engine, interval, number of bits and script";
namespace vf {
static const UReals& all() { static UReals v; if (v.empty()) { ureal_a(v); ureal_b(v); ureal_c(v); } return v; }
static const char* U01[] = { "uniform_01", "uniform_01 over an engine", "uniform_01 over an engine reference" };
static void note_script(Ctx& c, const ScriptP& s) { if (c.verbose) for (std::size_t i = 0; i < s->head.size() && i < 30; ++i) c.text << "+" << s->head[i] << " "; }
static std::string rnm(const UReal& u, ld lo, ld hi) { std::ostringstream o; o.precision(21); o << "uniform_real<" << u.type << ">(" << lo << ", " << hi << ") over " << u.engine; return o.str(); }
static void bounds(Ctx& c) {
    const UReal& u = *all()[c.enumerate(all().size())]; ScriptP s = gen_script(c, u.maxoff); s->limit = 200000; std::size_t n = 1 + c.s.choose(15); ld o1[16], o2[16]; u64 p1 = 0, p2 = 0;
    switch (c.s.choose(3)) {
    case 0: { int k = (int)c.s.choose(2); std::string w = std::string(U01[k]) + " <" + u.type + "> over " + u.engine; NOTE(c, w); note_script(c, s); u.u01(s, p1, k, o1, n); for (std::size_t i = 0; i < n; ++i) REQUIRE(c, o1[i] >= 0 && o1[i] < 1, w << ": value " << i << " is " << o1[i]); c.label("u01"); break; }
    case 1: { if (!u.full) return; int b = (int)c.s.choose(NCANON - 1); std::string w = "generate_canonical<" + u.type + ", " + str(CANON_BITS[b]) + "> over " + u.engine; NOTE(c, w); note_script(c, s); u.canon(s, p1, b, o1, n); for (std::size_t i = 0; i < n; ++i) REQUIRE(c, o1[i] >= 0 && o1[i] < 1, w << ": value " << i << " is " << o1[i]);
        long double per = (long double)p1 / n, need = std::min(CANON_BITS[b], u.digits) - 1e-9L; REQUIRE(c, p1 % n == 0 && per * std::log2((long double)u.maxoff + 1) >= need, w << ": " << per << " engine calls per value for " << need << " bits"); c.label("canonical"); break; }
    default: { ld lo, hi; u.interval(c, lo, hi); std::string w = rnm(u, lo, hi); NOTE(c, w); note_script(c, s); int k = (int)c.s.choose(3); u.range(s, p1, lo, hi, 0, o1, n); u.range(s, p2, lo, hi, k, o2, n);
        for (std::size_t i = 0; i < n; ++i) { REQUIRE(c, o1[i] >= lo && o1[i] < hi, w << ": value " << i << " is " << o1[i]); REQUIRE(c, o1[i] == o2[i], w << ": value " << i << " depends on the way the interval is given: " << o1[i] << " or " << o2[i]); }
        REQUIRE(c, p1 == p2, w << ": engine calls depend on the way the interval is given"); c.label(hi / 2 - lo / 2 > u.huge / 2 ? "interval wider than the type" : hi - lo < u.eps * 32 * std::max(std::fabs(lo), std::fabs(hi)) ? "few ulps" : "interval"); }
    }
    c.nontrivial();
}
// every engine value: exactly one result per cell of the interval
static void cells_of(Ctx& c, const std::string& w, std::vector<ld>& v, u64 total, ld lo, ld hi, ld ulp) {
    std::sort(v.begin(), v.end()); ld wd = hi - lo, rej = (ld)(total - v.size()), tol = 4 * ulp + wd * 1e-18L * 8 + wd * (rej / total); REQUIRE(c, rej <= total * (4 * ulp / wd) + 1, w << ": " << (u64)rej << " of " << total << " engine values are rejected");
    for (std::size_t k = 0; k < v.size(); ++k) { ld a = lo + wd * ((ld)k / total) - tol, b = lo + wd * ((ld)(k + 1) / total) + tol; if (!(v[k] >= lo && v[k] < hi && v[k] >= a && v[k] <= b)) REQUIRE(c, false, w << ": result " << k << " in order of " << total << " is " << v[k] << ", not between " << a << " and " << b); }
    c.evals += v.size();
}
static void cells(Ctx& c) {
    std::vector<const UReal*> mid; for (std::size_t i = 0; i < all().size(); ++i) if (all()[i]->maxoff < 70000) mid.push_back(all()[i]);
    const UReal& u = *mid[c.enumerate(mid.size())]; u64 R = u.maxoff + 1; ld lo = 0, hi = 1; int k = (int)c.s.choose(5); std::string w; if (k >= 3) { u.interval(c, lo, hi); w = rnm(u, lo, hi); } else w = std::string(U01[k]) + " <" + u.type + "> over " + u.engine;
    if (!(lo < hi)) return; NOTE(c, w << ", every engine value"); std::vector<ld> v; ScriptP s(new Script); s->head.resize(1); for (u64 i = 0; i < R; ++i) { s->head[0] = i; u64 p = 0; ld x; if (k >= 3) u.range(s, p, lo, hi, 0, &x, 1); else u.u01(s, p, k, &x, 1); if (p == 1) v.push_back(x); }
    ld m = std::max(std::fabs(lo), std::fabs(hi)), ulp = std::max(m * u.eps, u.tiny); if (m > 1e4900L) { for (std::size_t i = 0; i < v.size(); ++i) v[i] /= 8; lo /= 8; hi /= 8; ulp /= 8; } cells_of(c, w, v, R, lo, hi, ulp); c.label(k >= 3 ? "interval" : "unit"); c.nontrivial();
}
static void canon_cells(Ctx& c) {
    std::vector<const UReal*> mid; for (std::size_t i = 0; i < all().size(); ++i) if (all()[i]->maxoff < 70000 && all()[i]->full) mid.push_back(all()[i]);
    const UReal& u = *mid[c.enumerate(mid.size())]; u64 R = u.maxoff + 1; int b = (int)c.s.choose(7); ScriptP s(new Script); u64 p = 0; ld x; u.canon(s, p, b, &x, 1); u64 k = p; double total = std::pow((double)R, (double)k); if (total > 70000) return;
    std::string w = "generate_canonical<" + u.type + ", " + str(CANON_BITS[b]) + "> over " + u.engine; NOTE(c, w << ", every sequence"); u64 N = (u64)(total + 0.5); std::vector<ld> v(N); for (u64 i = 0; i < N; ++i) { s->head.clear(); u64 t = i; for (u64 j = 0; j < k; ++j) { s->head.push_back(t % R); t /= R; } p = 0; u.canon(s, p, b, &v[i], 1); REQUIRE(c, p == k, w << ": the number of engine calls varies"); }
    cells_of(c, w, v, N, 0, 1, u.eps); c.label("canonical"); c.nontrivial();
}
// statistics over long pseudo-random scripts
static void check_uniform(Ctx& c, const std::string& w, const std::vector<ld>& v, ld lo, ld hi, ld res) {
    std::vector<double> u(v.size()); ld wd = hi - lo; bool big = hi / 4 - lo / 4 > 1e4900L; for (std::size_t i = 0; i < v.size(); ++i) { REQUIRE(c, v[i] >= lo && v[i] < hi, w << ": value " << i << " is " << v[i]); u[i] = big ? (double)((v[i] / 4 - lo / 4) / (hi / 4 - lo / 4)) : (double)((v[i] - lo) / wd); }
    double pz = pairs_z(u); std::vector<double> so(u); double d = ks(so) - (double)res * std::sqrt((double)v.size()); REQUIRE(c, d < 4.2, w << ": not uniform, KS distance " << d << " x sqrt(n)"); if (res < 1e-6) REQUIRE(c, pz < 7.5, w << ": successive values depend on each other, z " << pz);
}
static void low_bits(Ctx& c, const std::string& w, const std::vector<ld>& v, int b) {
    if (b < 8) return; std::vector<double> o(64, 0.0); for (std::size_t i = 0; i < v.size(); ++i) { ld t = std::floor(std::ldexp(v[i], b)); o[(std::size_t)std::fmod(t, 64.0L)] += 1; } double z = chi2z(o, std::vector<double>(64, v.size() / 64.0)); REQUIRE(c, z < 7.5, w << ": the last of " << b << " bits are not random, z " << z);
}
static void law(Ctx& c) {
    std::vector<const UReal*> w; for (std::size_t i = 0; i < all().size(); ++i) if (all()[i]->maxoff > 70000) w.push_back(all()[i]);
    const UReal& u = *w[c.enumerate(w.size())]; ScriptP s(new Script); s->tail = c.s.choose(~0ull); const std::size_t N = 3000; std::vector<ld> v(N); u64 p = 0;
    switch (c.s.choose(2)) {
    case 0: { int k = (int)c.s.choose(2); std::string n = std::string(U01[k]) + " <" + u.type + "> over " + u.engine; NOTE(c, n); u.u01(s, p, k, v.data(), N); check_uniform(c, n, v, 0, 1, u.eps); c.label("u01"); break; }
    case 1: { int b = (int)c.s.choose(NCANON - 1); std::string n = "generate_canonical<" + u.type + ", " + str(CANON_BITS[b]) + "> over " + u.engine; NOTE(c, n); u.canon(s, p, b, v.data(), N); check_uniform(c, n, v, 0, 1, u.eps); low_bits(c, n, v, std::min(CANON_BITS[b], u.digits)); c.label("canonical"); break; }
    default: { ld lo, hi; u.interval(c, lo, hi); ld m = std::max(std::fabs(lo), std::fabs(hi)), ulp = std::max(m * u.eps, u.tiny), res = m > 1e4900L ? 3 * (ulp / 4) / (hi / 4 - lo / 4) : 3 * ulp / (hi - lo); std::string n = rnm(u, lo, hi); NOTE(c, n); u.range(s, p, lo, hi, (int)c.s.choose(3), v.data(), N); check_uniform(c, n, v, lo, hi, res); c.label(res < 1e-6L ? "interval" : "coarse interval"); }
    }
    c.nontrivial();
}
// the library's engines
template<class T, std::size_t b, class G> static void canonT(Ctx& c, G& g, const std::string& n, std::vector<ld>& v) { for (std::size_t i = 0; i < v.size(); ++i) v[i] = br::generate_canonical<T, b>(g); std::string w = "generate_canonical<" + str(std::numeric_limits<T>::digits) + " digits, " + str(b) + "> over " + n; NOTE(c, w); check_uniform(c, w, v, 0, 1, std::numeric_limits<T>::epsilon()); low_bits(c, w, v, std::min((int)b, (int)std::numeric_limits<T>::digits)); }
template<class G> static void libT(Ctx& c, const char* n) {
    G g((u32)(1 + c.s.choose(2000000000))); std::vector<ld> v(3000); int k = (int)c.s.choose(9);
    switch (k) { case 0: canonT<float, 24>(c, g, n, v); break; case 1: canonT<double, 53>(c, g, n, v); break; case 2: canonT<double, 16>(c, g, n, v); break; case 3: canonT<long double, 64>(c, g, n, v); break; case 4: canonT<double, 32>(c, g, n, v); break;
    case 5: { br::uniform_01<double> d; NOTE(c, "uniform_01 over " << n); for (std::size_t i = 0; i < v.size(); ++i) v[i] = d(g); check_uniform(c, std::string("uniform_01 over ") + n, v, 0, 1, 1e-15L); break; }
    case 6: { br::uniform_01<float> d; NOTE(c, "uniform_01<float> over " << n); for (std::size_t i = 0; i < v.size(); ++i) v[i] = d(g); check_uniform(c, std::string("uniform_01<float> over ") + n, v, 0, 1, 1e-7L); break; }
    case 7: { br::uniform_01<G, double> d(g); NOTE(c, "uniform_01<engine> over " << n); for (std::size_t i = 0; i < v.size(); ++i) v[i] = d(); check_uniform(c, std::string("uniform_01<engine> over ") + n, v, 0, 1, 1e-15L); break; }
    case 8: { double a = c.s.irange(-100, 100), b = a + 1 + c.s.choose(1000); br::uniform_real_distribution<double> d(a, b); NOTE(c, "uniform_real over " << n); for (std::size_t i = 0; i < v.size(); ++i) v[i] = d(g); check_uniform(c, std::string("uniform_real over ") + n, v, a, b, 1e-12L); break; }
    default: { float a = c.s.irange(-100, 100), b = a + 1 + c.s.choose(1000); boost::uniform_real<float> d(a, b); NOTE(c, "uniform_real<float> over " << n); for (std::size_t i = 0; i < v.size(); ++i) v[i] = d(g); check_uniform(c, std::string("uniform_real<float> over ") + n, v, a, b, 1e-4L); } }
    c.label(n); c.nontrivial();
}
static void library(Ctx& c) {
    switch (c.enumerate(14)) {
    case 0: libT<br::mt19937>(c, "mt19937"); break; case 1: libT<br::minstd_rand>(c, "minstd_rand"); break; case 2: libT<br::mt19937_64>(c, "mt19937_64"); break; case 3: libT<br::lagged_fibonacci607>(c, "lagged_fibonacci607"); break;
    case 4: libT<br::ranlux3_01>(c, "ranlux3_01"); break; case 5: libT<br::ranlux64_3_01>(c, "ranlux64_3_01"); break; case 6: libT<br::lagged_fibonacci_01_engine<float, 20, 55, 24> >(c, "lagged Fibonacci float"); break; case 7: libT<br::taus88>(c, "taus88"); break;
    case 8: libT<br::mixmax>(c, "mixmax"); break; case 9: libT<br::rand48>(c, "rand48"); break; case 10: libT<br::ecuyer1988>(c, "ecuyer1988"); break; case 11: libT<br::independent_bits_engine<br::mt19937, 32, i32> >(c, "independent_bits<mt19937, 32, int32>"); break;
    case 12: libT<br::independent_bits_engine<br::mt19937_64, 64, i64> >(c, "independent_bits<mt19937_64, 64, int64>"); break; default: libT<br::lagged_fibonacci_01_engine<long double, 60, 607, 273> >(c, "lagged Fibonacci long double"); }
}
template<class T, class G> static void mpT(Ctx& c, const char* n, int digits) {
    G g((u32)(1 + c.s.choose(2000000000))); std::vector<ld> v(600), low(600); int k = (int)c.s.choose(2); NOTE(c, n << " " << k);
    for (std::size_t i = 0; i < v.size(); ++i) { T x = 0, lo = 0, hi = 1; if (k == 0) x = br::uniform_01<T>()(g); else if (k == 1) x = br::generate_canonical<T, 160>(g); else { lo = -7; hi = 1000; x = br::uniform_real_distribution<T>(lo, hi)(g); } REQUIRE(c, x >= lo && x < hi, n << ": value " << i << " is " << x); T u = (x - lo) / (hi - lo); v[i] = static_cast<ld>(u); if (v[i] >= 1) v[i] = 1 - 1e-18L; T t = ldexp(u, std::min(digits, 160) - 10); t -= floor(t); low[i] = static_cast<ld>(t); if (low[i] >= 1) low[i] = 1 - 1e-18L; }
    check_uniform(c, n, v, 0, 1, 1e-17L); if (k == 1) check_uniform(c, std::string(n) + ", last bits", low, 0, 1, 1.0L / 1024); c.label(n); c.nontrivial();
}
static void multi(Ctx& c) {
    switch (c.enumerate(3)) { case 0: mpT<mp::cpp_bin_float_50, br::mt19937>(c, "cpp_bin_float_50 over mt19937", 168); break; case 1: mpT<mp::cpp_bin_float_100, br::mt19937_64>(c, "cpp_bin_float_100 over mt19937_64", 334); break; default: mpT<mp::cpp_bin_float_quad, br::lagged_fibonacci607>(c, "cpp_bin_float_quad over lagged_fibonacci607", 113); }
}
}
namespace pbt { void register_checks() {
    add("bounds", 1000000, 10000000, vf::bounds);
    add("cells", 3000, 60000, vf::cells);
    add("canonical_cells", 3000, 60000, vf::canon_cells);
    add("law", 15000, 100000, vf::law);
    add("library", 8000, 40000, vf::library);
    add("multiprecision", 120, 2000, vf::multi);
} }
