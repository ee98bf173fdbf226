// V01: wrappers of engines and distributions.
#include "v01.hpp"
#include "stat.hpp"
#include <boost/random/random_number_generator.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random.hpp>
namespace br = boost::random;
const char* pbt_rule = "a case counts as non-trivial when at least two wrappers existed and two values were compared (histories), or values of more than one range, permutation or position were counted; distinctness is over distribution, engine, holding mode and operations";
namespace vf {
static void histories(Ctx& c) { static Entries v; if (v.empty()) { v01_a(v); v01_b(v); v01_c(v); v01_d(v); } v[c.enumerate(v.size())].f(c); }
// the integer-range wrapper over scripted engines, one value
struct Ranged { std::string type, engine; u64 tmax, maxoff; virtual ~Ranged() {} virtual void draw(const ScriptP& s, u64& pos, const u64* n, std::size_t k, u64* out) const = 0; };
template<class T, class E> struct RangedT : Ranged { RangedT(const char* t, const char* e) { type = t; engine = e; tmax = (u64)(std::numeric_limits<T>::max)(); maxoff = E::maxoff; }
    void draw(const ScriptP& s, u64& pos, const u64* n, std::size_t k, u64* out) const { E e(s, pos); br::random_number_generator<E, T> g(e), h(g); for (std::size_t i = 0; i < k; ++i) { T r = i % 2 ? h((T)n[i]) : g((T)n[i]); out[i] = r < 0 ? ~0ull : (u64)r; } pos = e.pos; } };
template<class T> static void ranged(std::vector<const Ranged*>& v, const char* n) {
#define RE(B, lo, hi) v.push_back(new RangedT<T, SEng<B, lo, hi> >(n, #B "[" #lo ".." #hi "]"));
    RE(u32, 0u, 1u) RE(u32, 0u, 2u) RE(u32, 1u, 6u) RE(i32, -5, 7) RE(u8, 0, 255) RE(u16, 0, 65535) RE(u32, 0u, 0xffffffffu) RE(u32, 1u, 2147483646u) RE(u64, 0u, ~0ull) RE(i32, -2147483647 - 1, 2147483647)
#undef RE
}
static const std::vector<const Ranged*>& rangeds() { static std::vector<const Ranged*> v; if (v.empty()) { ranged<long>(v, "long"); ranged<int>(v, "int"); ranged<unsigned>(v, "unsigned"); ranged<short>(v, "short"); ranged<unsigned long long>(v, "unsigned long long"); ranged<signed char>(v, "signed char"); ranged<unsigned char>(v, "unsigned char"); } return v; }
static void in_range(Ctx& c) {
    const Ranged& r = *rangeds()[c.enumerate(rangeds().size())]; ScriptP s = gen_script(c, r.maxoff); s->limit = 400000; std::size_t k = 1 + c.s.choose(11); u64 n[12], out[12], pos = 0; std::ostringstream o;
    for (std::size_t i = 0; i < k; ++i) { n[i] = 1 + c.s.special(r.tmax - 1); o << " " << n[i]; } NOTE(c, "random_number_generator<" << r.type << "> over " << r.engine << ", n =" << o.str()); r.draw(s, pos, n, k, out);
    for (std::size_t i = 0; i < k; ++i) REQUIRE(c, out[i] < n[i], "random_number_generator<" << r.type << "> over " << r.engine << ": for n = " << n[i] << " it returns " << (i64)out[i]); c.label(r.type); c.nontrivial();
}
// all engine sequences: every value has probability 1/n
static void enumerate(Ctx& c) {
    std::vector<const Ranged*> small; for (const Ranged* r : rangeds()) if (r->maxoff < 13) small.push_back(r);
    const Ranged& r = *small[c.enumerate(small.size())]; u64 R = r.maxoff + 1, budget = c.thorough ? 20000 : 5000, n; switch (c.s.choose(2)) { case 0: n = 1 + c.s.choose(16); break; case 1: { n = R; u64 k = c.s.choose(3); while (k-- && n * R <= 400) n *= R; n += c.s.choose(2); n -= n > 2 ? 1 : 0; break; } default: n = 2 + c.s.choose(125); } if (n > r.tmax) n = r.tmax;
    std::string what = "random_number_generator<" + r.type + "> over " + r.engine + ", n = " + str(n); NOTE(c, what); std::vector<double> p(n, 0.0); double undecided = 0, w = 1; u64 runs = 0; std::vector<std::vector<u64> > level(1), next; ScriptP s(new Script);
    while (!level.empty()) { next.clear(); bool stop = level.size() * (R + 1) + runs > budget;
        for (std::size_t i = 0; i < level.size(); ++i) { s->head = level[i]; u64 pos = 0, v; ++runs; r.draw(s, pos, &n, 1, &v); if (pos > level[i].size()) { if (stop) { undecided += w; continue; } for (u64 k = 0; k < R; ++k) { next.push_back(level[i]); next.back().push_back(k); } continue; } REQUIRE(c, v < n, what << ": returned " << (i64)v); p[(std::size_t)v] += w; }
        level.swap(next); w /= R; }
    for (u64 i = 0; i < n; ++i) REQUIRE(c, p[i] <= 1.0 / n + 1e-12 && p[i] + undecided >= 1.0 / n - 1e-12, what << ": P(" << i << ") is between " << p[i] << " and " << p[i] + undecided << ", not " << 1.0 / n);
    c.label(undecided < 0.01 ? "undecided <1%" : "undecided >1%"); c.nontrivial(n > 1);
}
// shuffles of a good engine
template<class E, class T> static void shuffleT(Ctx& c, const char* en) {
    E e((u32)(1 + c.s.choose(1000000000))); br::random_number_generator<E, T> g(e); std::size_t k = 2 + c.s.choose(c.s.coin() ? 3 : 10); const int N = 24000; NOTE(c, "shuffles of " << k << " over " << en); std::vector<double> perm(k <= 6 ? 1 : 0), pos(k * k, 0.0), pair(k * k, 0.0); std::size_t f = 1; for (std::size_t i = 2; i <= k && k <= 6; ++i) f *= i; if (k <= 6) perm.assign(f, 0.0);
    std::vector<int> a(k), first(k); for (int t = 0; t < N; ++t) { for (std::size_t i = 0; i < k; ++i) a[i] = (int)i; for (std::size_t i = 1; i < k; ++i) std::swap(a[i], a[(std::size_t)g((T)(i + 1))]);
        for (std::size_t i = 0; i < k; ++i) ++pos[i * k + a[i]]; if (k <= 6) { std::size_t rank = 0; for (std::size_t i = 0; i < k; ++i) { int less = 0; for (std::size_t j = i + 1; j < k; ++j) less += a[j] < a[i]; rank = rank * (k - i) + less; } ++perm[rank]; } if (t) ++pair[first[0] * k + a[0]]; first = a; }
    if (k <= 6) { double z = chi2z(perm, std::vector<double>(perm.size(), (double)N / f)); REQUIRE(c, z < 8, "permutations of " << k << " over " << en << " are not equally frequent (" << z << ")"); }
    for (std::size_t i = 0; i < k; ++i) { double z = chi2z(std::vector<double>(pos.begin() + i * k, pos.begin() + (i + 1) * k), std::vector<double>(k, (double)N / k)); REQUIRE(c, z < 8, "elements at position " << i << " of " << k << " over " << en << " are not equally frequent (" << z << ")"); }
    double z = chi2z(pair, std::vector<double>(k * k, (N - 1.0) / k / k)); REQUIRE(c, z < 8, "successive shuffles of " << k << " over " << en << " depend (" << z << ")"); c.label(en); c.nontrivial();
}
static void shuffle(Ctx& c) { switch (c.enumerate(6)) { case 0: shuffleT<br::mt19937, long>(c, "mt19937"); break; case 1: shuffleT<br::mt19937_64, int>(c, "mt19937_64"); break; case 2: shuffleT<br::minstd_rand, long>(c, "minstd_rand"); break; case 3: shuffleT<br::taus88, unsigned>(c, "taus88"); break; case 4: shuffleT<br::ranlux24, std::ptrdiff_t>(c, "ranlux24"); break; default: shuffleT<br::lagged_fibonacci607, long>(c, "lagged_fibonacci607"); } }
// large ranges: sixty-fourths and residues
static void large(Ctx& c) {
    br::mt19937 e((u32)(1 + c.s.choose(1000000000))); br::random_number_generator<br::mt19937, long long> g(e); br::random_number_generator<br::mt19937, unsigned> h(e); bool wide = c.s.coin(); u64 n = 2 + c.s.special(wide ? 0x7ffffffffffffffdull : 0xfffffffdull); const int N = 20000; NOTE(c, "n = " << n); u64 B = n < 64 ? n : 64; std::vector<double> top(B, 0.0), mod(B, 0.0), et(B), em(B);
    for (int i = 0; i < N; ++i) { u64 v = wide ? (u64)g((long long)n) : h((unsigned)n); REQUIRE(c, v < n, "for n = " << n << " it returns " << v); ++top[(std::size_t)((u128)v * B / n)]; ++mod[v % B]; }
    for (u64 i = 0; i < B; ++i) { u128 a = ((u128)i * n + B - 1) / B, b = ((u128)(i + 1) * n + B - 1) / B; et[i] = (double)((long double)(b - a) / n * N); em[i] = (double)((long double)(n / B + (n % B > i)) / n * N); }
    double z = chi2z(top, et); REQUIRE(c, z < 8, "for n = " << n << " the parts of the range are not equally frequent (" << z << ")"); z = chi2z(mod, em); REQUIRE(c, z < 8, "for n = " << n << " the residues modulo " << B << " are not equally frequent (" << z << ")"); c.label(wide ? "long long" : "unsigned"); c.nontrivial();
}
// uniform_01 holding an engine
template<class E, class R, template<class> class Hold> static void u01T(Ctx& c, const char* en) {
    typedef Hold<E> H; typedef br::uniform_01<typename H::X, R> G; std::string what = std::string("uniform_01<") + en + "> by " + H::n(); NOTE(c, what); E e((u32)(1 + c.s.choose(1000000000))), me(e), own(e); std::list<G> g; std::vector<G*> p; std::vector<E> m; br::uniform_01<R> d; m.reserve(8);
    g.push_back(G(H::give(e))); p.push_back(&g.back()); m.push_back(e);
    for (u64 op = 0, N = 3 + c.s.choose(25); op < N; ++op) { std::size_t k = c.s.choose(p.size() - 1); E& x = H::shared ? me : m[k];
        switch (c.s.choose(6)) { case 0: if (p.size() < 5) { NOTE(c, "copy of " << k); g.push_back(G(*p[k])); p.push_back(&g.back()); E y = m[k]; m.push_back(y); } break; case 1: { NOTE(c, "outer engine called"); REQUIRE(c, e() == me(), what << ": outer engine"); break; } case 2: { NOTE(c, "base of " << k << " called"); REQUIRE(c, p[k]->base()() == x(), what << ": base()"); break; }
        case 3: p[k]->reset(); REQUIRE(c, (p[k]->min)() == 0 && (p[k]->max)() == 1, what << ": bounds"); if (H::shared) REQUIRE(c, &p[k]->base() == &e, what << ": base() is not the engine given"); break;
        default: { NOTE(c, "draw from " << k); R a = (*p[k])(), b = d(x); REQUIRE(c, a == b && a >= 0 && a < 1, what << " returns " << a << ", uniform_01 over the engine " << b); } }
        REQUIRE(c, e == me, what << ": outer engine is not in the state it should have"); REQUIRE(c, p[k]->base() == x, what << ": base() is not in the state it should have"); }
    c.label(H::n()); c.nontrivial();
}
static void u01(Ctx& c) {
#define U3(i, E, R) case i: u01T<br::E, R, ByVal>(c, #E); break; case i + 1: u01T<br::E, R, ByRef>(c, #E); break; case i + 2: u01T<br::E, R, ByPtr>(c, #E); break;
    switch (c.enumerate(18)) { U3(0, mt19937, double) U3(3, minstd_rand, double) U3(6, lagged_fibonacci607, double) U3(9, mt19937, float) U3(12, mt19937_64, double) U3(15, ecuyer1988, long double) }
#undef U3
}
// the deprecated classes and their modern counterparts
template<class S, class T> static bool reread(const T& a, T& b) { std::basic_stringstream<S> s; s.precision(21); s << a; s >> b; return !s.fail(); }
template<class E> static void legacyT(Ctx& c, const char* en) {
    E e((u32)(1 + c.s.choose(1000000000))), f(e); const int n = 20; NOTE(c, en);
    { long long lo = c.s.irange(-5000000000ll, 5000000000ll), hi = lo + (long long)c.s.special(1ull << 62); boost::uniform_int<long long> a(lo, hi); br::uniform_int_distribution<long long> b(lo, hi); NOTE(c, "uniform_int(" << lo << ", " << hi << ")"); REQUIRE(c, (a.min)() == lo && (a.max)() == hi && a.a() == lo && a.b() == hi && a.param().a() == lo && a.param().b() == hi, "uniform_int: bounds"); for (int i = 0; i < n; ++i) { long long x = a(e), y = b(f); REQUIRE(c, x == y, "uniform_int(" << lo << ", " << hi << ") returns " << x << " instead of " << y); } boost::uniform_int<long long> q; boost::uniform_int<long long>::param_type pt(lo, hi); q.param(pt); REQUIRE(c, q == a && boost::uniform_int<long long>(pt) == a && q(e) == b(f), "uniform_int from parameters"); boost::uniform_int<long long> t; REQUIRE(c, t(e, pt) == b(f) && (t.min)() == 0 && (t.max)() == 9, "uniform_int with parameters"); long long k = 1 + (long long)c.s.special(1ull << 62), z = t(e, k); REQUIRE(c, z >= 0 && z < k && z == br::uniform_int_distribution<long long>(0, k - 1)(f), "uniform_int with " << k << " values returns " << z); boost::uniform_int<long long> w; REQUIRE(c, (reread<char>(a, w)) && w == a, "uniform_int from text"); }
    { double lo = (double)c.s.irange(-1000000, 1000000) / 64, hi = lo + (double)(1 + c.s.choose(1u << 30)) / 64; boost::uniform_real<> a(lo, hi); br::uniform_real_distribution<> b(lo, hi); NOTE(c, "uniform_real(" << lo << ", " << hi << ")"); REQUIRE(c, (a.min)() == lo && (a.max)() == hi && a.a() == lo && a.b() == hi && a.param().a() == lo && a.param().b() == hi, "uniform_real: bounds"); for (int i = 0; i < n; ++i) { double x = a(e), y = b(f); REQUIRE(c, x == y, "uniform_real(" << lo << ", " << hi << ") returns " << x << " instead of " << y); } boost::uniform_real<> q; q.param(boost::uniform_real<>::param_type(lo, hi)); REQUIRE(c, q == a && q(e) == b(f), "uniform_real from parameters"); boost::uniform_real<> w; REQUIRE(c, (reread<char>(a, w)) && w == a, "uniform_real from text"); }
    { double p = (double)(1 + c.s.choose(1022)) / 1024; if (c.s.coin()) p = 0.01 + 0.98 * c.s.u01(); boost::geometric_distribution<> a(p); br::geometric_distribution<> b(1 - p); NOTE(c, "geometric(" << p << ")"); REQUIRE(c, std::fabs(a.p() - p) < 1e-15, "geometric: p() is " << a.p() << " instead of " << p); for (int i = 0; i < n; ++i) { int x = a(e), y = b(f); REQUIRE(c, x == y + 1, "the old geometric(" << p << ") returns " << x << ", the new one of 1 - p " << y); } a.reset(); boost::geometric_distribution<> w; REQUIRE(c, (reread<char>(a, w)) && std::fabs(w.p() - a.p()) < 1e-15, "geometric from text has p " << w.p() << " instead of " << a.p()); for (int i = 0; i < n; ++i) { int x = a(e), y = w(f); REQUIRE(c, x == y, "geometric(" << p << ") from text returns " << y << " instead of " << x); } }
    { double mean = c.s.logu(1e-3, 1e3), sigma = mean * c.s.logu(0.01, 30); boost::lognormal_distribution<> a(mean, sigma); br::normal_distribution<> b; NOTE(c, "lognormal(" << mean << ", " << sigma << ")"); REQUIRE(c, a.mean() == mean && a.sigma() == sigma, "lognormal: parameters"); double s2 = std::log1p(sigma / mean * (sigma / mean)), s = std::sqrt(s2), mu = std::log(mean) - s2 / 2; if (c.s.coin()) { boost::lognormal_distribution<> w(3, 2); w(e); REQUIRE(c, (reread<char>(a, w)), "lognormal from text"); a = w; b(f); b.reset(); REQUIRE(c, std::fabs(a.mean() / mean - 1) < 1e-14 && std::fabs(a.sigma() / sigma - 1) < 1e-14, "lognormal from text: parameters"); }
        for (int i = 0; i < n; ++i) { if (c.s.chance(1, 10)) { a.reset(); b.reset(); } double x = a(e), t = b(f), y = std::exp(t * s + mu); REQUIRE(c, std::fabs(x - y) <= 1e-9 * y, "the old lognormal(" << mean << ", " << sigma << ") returns " << x << ", the definition from the same normal " << y); } }
    REQUIRE(c, e == f, en << ": the legacy classes leave the engine in another state"); c.label(en); c.nontrivial();
}
static void legacy(Ctx& c) { switch (c.enumerate(5)) { case 0: legacyT<boost::mt19937>(c, "mt19937"); break; case 1: legacyT<boost::minstd_rand>(c, "minstd_rand"); break; case 2: legacyT<boost::lagged_fibonacci607>(c, "lagged_fibonacci607"); break; case 3: legacyT<boost::rand48>(c, "rand48"); break; default: legacyT<br::mt19937_64>(c, "mt19937_64"); } }
// laws of the deprecated distributions
static void laws(Ctx& c) {
    boost::mt19937 e((u32)(1 + c.s.choose(1000000000))); const int N = 20000;
    if (c.s.coin()) { double p = 0.05 + 0.9 * c.s.u01(); boost::geometric_distribution<> g(p); std::vector<double> o(200, 0.0), x(200); NOTE(c, "geometric(" << p << ")"); for (int i = 0; i < N; ++i) { int v = g(e); REQUIRE(c, v >= 1, "the old geometric(" << p << ") returns " << v); ++o[std::min(v, 200) - 1]; } for (int i = 0; i < 200; ++i) x[i] = N * (i < 199 ? (1 - p) * std::pow(p, i) : std::pow(p, i)); double z = chi2z(o, x); REQUIRE(c, z < 8, "the old geometric(" << p << ") is off (" << z << ")"); c.label("geometric"); }
    else { double mean = c.s.logu(1e-2, 1e2), sigma = mean * c.s.logu(0.05, 5); boost::lognormal_distribution<> g(mean, sigma); NOTE(c, "lognormal(" << mean << ", " << sigma << ")"); double s2 = std::log1p(sigma / mean * (sigma / mean)), mu = std::log(mean) - s2 / 2; std::vector<double> u(N); for (double& x : u) { double v = g(e); REQUIRE(c, v > 0, "the old lognormal returns " << v); x = 0.5 * std::erfc(-(std::log(v) - mu) / std::sqrt(2 * s2)); } double z = ks(u); REQUIRE(c, z < 4.2, "the old lognormal(" << mean << ", " << sigma << ") is off (" << z << ")"); c.label("lognormal"); }
    c.nontrivial();
}
// names in namespace boost
static void names(Ctx& c) {
#define SAME(N) REQUIRE(c, (std::is_same<boost::N, br::N>::value), "boost::" #N " is not boost::random::" #N);
    SAME(ecuyer1988) SAME(hellekalek1995) SAME(lagged_fibonacci607) SAME(lagged_fibonacci44497) SAME(minstd_rand0) SAME(minstd_rand) SAME(rand48) SAME(mt11213b) SAME(mt19937) SAME(mt19937_64) SAME(ranlux3) SAME(ranlux4) SAME(ranlux3_01) SAME(ranlux4_01) SAME(ranlux64_3_01) SAME(ranlux64_4_01) SAME(ranlux64_3) SAME(ranlux64_4) SAME(kreutzer1986) SAME(taus88) SAME(bernoulli_distribution<>) SAME(binomial_distribution<>) SAME(cauchy_distribution<>) SAME(exponential_distribution<>) SAME(gamma_distribution<>) SAME(normal_distribution<>) SAME(poisson_distribution<>) SAME(triangle_distribution<>) SAME(uniform_01<>) SAME(uniform_on_sphere<>) SAME(uniform_smallint<>)
#undef SAME
    REQUIRE(c, (std::is_same<boost::variate_generator<boost::mt19937&, boost::uniform_int<> >::engine_value_type, boost::mt19937>::value) && (std::is_same<boost::variate_generator<boost::mt19937*, boost::uniform_int<> >::engine_value_type, boost::mt19937>::value) && (std::is_same<boost::variate_generator<boost::mt19937, boost::uniform_int<> >::engine_value_type, boost::mt19937>::value) && (std::is_same<boost::variate_generator<boost::mt19937*, boost::uniform_real<float> >::result_type, float>::value), "variate_generator: member types"); c.nontrivial();
}
}
namespace pbt { void register_checks() {
    add("histories", 120000, 2500000, vf::histories);
    add("range", 200000, 4000000, vf::in_range);
    add("enumerate", 1500, 20000, vf::enumerate);
    add("shuffle", 600, 8000, vf::shuffle);
    add("large", 1500, 20000, vf::large);
    add("uniform_01", 30000, 500000, vf::u01);
    add("legacy", 20000, 300000, vf::legacy);
    add("laws", 800, 10000, vf::laws);
    add("names", 1, 1, vf::names);
} }
