// D05: continuous distributions follow their law.
#include "law.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
const char* pbt_rule = "a case counts as non-trivial when at least 15,000 values (or all 65,536 engine values) were compared with the distribution function in at least 5 cells; distinctness is over distribution, parameters, engine and script";
namespace vf {
static const std::vector<const IDist*>& cont() { static std::vector<const IDist*> v; if (v.empty()) for (const IDist* d : dists()) if (d->kind <= NCCHI2 || d->kind == UNIFORM_REAL) v.push_back(d); return v; }
static std::string name(const IDist& d, const P& p, int eng) { std::ostringstream o; o.precision(21); o << d.name << p << " over a " << d.engine(eng); return o.str(); }
static bool wide_engine(const IDist& d, int e) { return d.maxoff(e) >= 0x7ffffff0u; }
static void check(Ctx& c, const IDist& d, const P& p, int e, std::size_t first, std::size_t N, bool fine = false) {
    std::string w = name(d, p, e); NOTE(c, w); ScriptP s(new Script); s->tail = c.s.choose(~0ull); s->limit = ~0ull; u64 pos = 0; ObjP x(d.make(p)); std::vector<ld> v(first); x->draw(e, s, pos, v.data(), first);
    Law l; l.cells(v, [&](ld t) { return cdf(d, p, t); }, [&](ld t) { return slack_of(d, p, t); }, (double)N, fine); std::size_t cells = l.cut.size(); v.resize(std::min<std::size_t>(N, 20000));
    for (std::size_t k = 0; k < N; k += v.size()) { x->draw(e, s, pos, v.data(), v.size()); l.take(v.data(), v.size()); }
    l.judge(c, w); c.label(d.name); c.label(cells < 5 ? "few cells" : "cells"); c.nontrivial(cells >= 5);
}
static void law(Ctx& c) { const IDist& d = *cont()[c.enumerate(cont().size())]; P p = gen_params(c, d, false); int e = (int)c.s.choose(d.nengines - 1); if (d.maxoff(e) < 60000 && d.kind != NORMAL && d.kind != EXPONENTIAL) e = 0; check(c, d, p, e, 2000, 20000); }
static void deep(Ctx& c) { const IDist& d = *cont()[c.enumerate(cont().size())]; P p = gen_params(c, d, false); int e = (int)c.s.choose(d.nengines - 1); if (!wide_engine(d, e)) e = (int)c.s.choose(1); check(c, d, p, e, 20000, c.thorough ? 4000000 : 400000); }
// the two tabulated laws, in two thousand cells
static void tables(Ctx& c) {
    static std::vector<const IDist*> v; if (v.empty()) for (const IDist* d : cont()) if (d->kind == NORMAL || d->kind == EXPONENTIAL) v.push_back(d);
    const IDist& d = *v[c.enumerate(v.size())]; int e = (int)c.s.choose(d.nengines - 1); if (!wide_engine(d, e)) e = (int)c.s.choose(1); check(c, d, d.kind == NORMAL ? P(0, 1) : P(1), e, 100000, c.thorough ? 50000000 : 8000000, true);
}
// far tails of the normal and exponential laws (everything else builds on them), by values drawn in a tight loop
struct Fast32 { typedef u32 result_type; pbt::Prng g; static constexpr u32 min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static constexpr u32 max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0xffffffffu; } u32 operator()() { return (u32)(g.next() >> 32); } };
struct Fast64 { typedef u64 result_type; pbt::Prng g; static constexpr u64 min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static constexpr u64 max BOOST_PREVENT_MACRO_SUBSTITUTION () { return ~0ull; } u64 operator()() { return g.next(); } };
template<class D, class E> static void tailT(Ctx& c, const char* w, bool normal) {
    typedef typename D::result_type T; E e; e.g.reseed(c.s.choose(~0ull)); D d; const std::size_t N = c.thorough ? 1000000000 : 90000000; NOTE(c, w << ", " << N << " values");
    // half open cells between the points exceeded with probability 2^-k
    int kmax = 8; while (N * std::pow(2.0, -(kmax + 1)) > 60) ++kmax; std::vector<T> cut; std::vector<double> q;
    for (int k = 4; k <= kmax; ++k) { double p = std::pow(2.0, -k), x; if (normal) { double lo = 0, hi = 12; for (int i = 0; i < 80; ++i) { double m = (lo + hi) / 2; (std::erfc(m / std::sqrt(2.0)) > p ? lo : hi) = m; } x = lo; } else x = k * std::log(2.0); T t = (T)x; cut.push_back(t); q.push_back(normal ? std::erfc((double)t / std::sqrt(2.0)) : std::exp(-(double)t)); }
    std::vector<u64> over(cut.size() + 1, 0); u64 pos = 0; const T c0 = cut[0]; for (std::size_t i = 0; i < N; ++i) { T x = d(e), a = x < 0 ? -x : x; if (a >= c0) { std::size_t k = std::upper_bound(cut.begin(), cut.end(), a) - cut.begin(); ++over[k]; pos += x > 0; } }
    u64 tot = 0; for (std::size_t k = 0; k < cut.size(); ++k) { double p = q[k] - (k + 1 < cut.size() ? q[k + 1] : 0), ex = N * p; tot += over[k + 1]; double z = (over[k + 1] - ex) / std::sqrt(ex); REQUIRE(c, std::fabs(z) < 7.5, w << ": " << over[k + 1] << " of " << N << " values have a size in [" << cut[k] << ", " << (k + 1 < cut.size() ? cut[k + 1] : std::numeric_limits<T>::infinity()) << "), " << ex << " expected"); }
    if (normal) { double z = (pos - tot / 2.0) / std::sqrt(tot / 4.0); REQUIRE(c, std::fabs(z) < 7.5, w << ": " << pos << " of " << tot << " values in the tails are positive"); } else REQUIRE(c, pos == tot, w << ": negative values");
    c.label(w); c.nontrivial();
}
static void tails(Ctx& c) {
    namespace br = boost::random;
    switch (c.enumerate(8)) { case 0: tailT<br::normal_distribution<double>, Fast64>(c, "normal<double> over a 64-bit engine", true); break; case 1: tailT<br::normal_distribution<double>, Fast32>(c, "normal<double> over a 32-bit engine", true); break;
    case 2: tailT<br::exponential_distribution<double>, Fast64>(c, "exponential<double> over a 64-bit engine", false); break; case 3: tailT<br::exponential_distribution<double>, Fast32>(c, "exponential<double> over a 32-bit engine", false); break;
    case 4: tailT<br::normal_distribution<float>, Fast32>(c, "normal<float> over a 32-bit engine", true); break; case 5: tailT<br::exponential_distribution<float>, Fast32>(c, "exponential<float> over a 32-bit engine", false); break;
    case 6: tailT<br::normal_distribution<long double>, Fast64>(c, "normal<long double> over a 64-bit engine", true); break; default: tailT<br::exponential_distribution<long double>, Fast64>(c, "exponential<long double> over a 64-bit engine", false); }
}
// distributions that use one engine value per result: all 65536 values
static void inverse(Ctx& c) {
    const IDist& d = *cont()[c.enumerate(cont().size())]; P p = gen_params(c, d, false); std::string w = name(d, p, 2) + ", every engine value"; NOTE(c, w);
    ObjP x(d.make(p)); ScriptP s(new Script); s->head.resize(65536); for (std::size_t i = 0; i < 65536; ++i) s->head[i] = i; u64 pos = 0; std::vector<ld> v(65536); bool one = true;
    for (std::size_t i = 0; i < 65536 && one; ++i) { u64 at = i; x->draw(2, s, at, &v[i], 1); one = at == i + 1; x->reset(); }
    c.label(one ? d.name : "more than one engine value"); if (!one) return; std::sort(v.begin(), v.end()); std::size_t used = 0;
    for (std::size_t k = 0; k < 200; ++k) {
        std::size_t i = k < 20 ? k * 3 : k < 40 ? 65535 - (k - 20) * 3 : 65536 * (k - 40) / 160; ld b = v[i]; double sl = slack_of(d, p, b); if (sl > 1e-4) continue; ++used; double n = (double)(std::upper_bound(v.begin(), v.end(), b) - v.begin()), e = cdf(d, p, b) * 65536;
        REQUIRE(c, std::fabs(n - e) <= 2.01 + sl * 65536 * 2, w << ": " << n << " of 65536 values are at most " << b << ", " << e << " expected");
    }
    c.nontrivial(used > 5);
}
// the engines of the library
template<class G, class D> static void libD(Ctx& c, const std::string& w, G& g, D d, Kind k, const P& p) {
    const IDist* id = 0; for (const IDist* x : cont()) if (x->kind == k && x->digits == std::numeric_limits<typename D::result_type>::digits) { id = x; break; }
    NOTE(c, w << p); std::vector<ld> v(5000); for (ld& x : v) x = d(g); Law l; std::size_t N = 100000; l.cells(v, [&](ld t) { return cdf(*id, p, t); }, [&](ld t) { return slack_of(*id, p, t); }, (double)N); v.resize(N); for (ld& x : v) x = d(g); l.take(v.data(), N); l.judge(c, w); c.nontrivial(l.cut.size() >= 5);
}
template<class G> static void libT(Ctx& c, const char* n) {
    G g((u32)(1 + c.s.choose(2000000000))); double a = 0.25 * (1 + c.s.choose(40)); std::string w = n; c.label(n);
    switch (c.s.choose(7)) {
    case 0: libD(c, "normal over " + w, g, boost::random::normal_distribution<double>(-1, 2), NORMAL, P(-1, 2)); break; case 1: libD(c, "normal<float> over " + w, g, boost::random::normal_distribution<float>(0, 1), NORMAL, P(0, 1)); break;
    case 2: libD(c, "exponential over " + w, g, boost::random::exponential_distribution<double>(a), EXPONENTIAL, P(a)); break; case 3: libD(c, "exponential<float> over " + w, g, boost::random::exponential_distribution<float>((float)a), EXPONENTIAL, P(a)); break;
    case 4: libD(c, "gamma over " + w, g, boost::random::gamma_distribution<double>(a, 2), GAMMA, P(a, 2)); break; case 5: libD(c, "laplace over " + w, g, boost::random::laplace_distribution<double>(0, 1), LAPLACE, P(0, 1)); break;
    case 6: libD(c, "normal<long double> over " + w, g, boost::random::normal_distribution<long double>(0, 1), NORMAL, P(0, 1)); break; default: libD(c, "cauchy over " + w, g, boost::random::cauchy_distribution<double>(0, 1), CAUCHY, P(0, 1)); }
}
static void library(Ctx& c) {
    namespace br = boost::random;
    switch (c.enumerate(9)) { case 0: libT<br::mt19937>(c, "mt19937"); break; case 1: libT<br::mt19937_64>(c, "mt19937_64"); break; case 2: libT<br::lagged_fibonacci607>(c, "lagged_fibonacci607"); break; case 3: libT<br::ranlux64_4_01>(c, "ranlux64_4_01"); break; case 4: libT<br::minstd_rand>(c, "minstd_rand"); break; case 5: libT<br::rand48>(c, "rand48"); break; case 6: libT<br::mixmax>(c, "mixmax"); break; case 7: libT<br::taus88>(c, "taus88"); break; default: libT<br::ranlux4_01>(c, "ranlux4_01"); }
}
}
namespace pbt { void register_checks() {
    add("law", 4000, 30000, vf::law);
    add("deep", 300, 1200, vf::deep);
    add("tables", 24, 120, vf::tables);
    add("tails", 16, 24, vf::tails);
    add("inverse", 2500, 30000, vf::inverse);
    add("library", 400, 4000, vf::library);
} }
