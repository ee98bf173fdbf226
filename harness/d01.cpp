// D01: exact uniform integers.
#include "uint.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/taus88.hpp>
#include <boost/multiprecision/cpp_int.hpp>
namespace br = boost::random;
namespace mp = boost::multiprecision;
const char* pbt_rule = "a case counts as non-trivial when a range of more than one value was drawn from an engine whose outputs were scripted (extremes included), completely enumerated, or of a good generator tested for uniformity; distinctness is over type, engine range, requested range and script";
namespace vf {
const UInts& all_uints() { static UInts v; if (v.empty()) { uint_a(v); uint_b(v); uint_c(v); uint_d(v); } return v; }
static std::string nm(const UInt& u, s128 lo, s128 hi) { return "uniform_int<" + u.type + ">(" + sh(lo) + ", " + sh(hi) + ") over " + u.engine; }
// in range and terminating, for every stream; the same through every route
static void in_range(Ctx& c) {
    const UInt& u = *all_uints()[c.enumerate(all_uints().size())]; s128 lo, hi; gen_range(c, u, lo, hi);
    ScriptP s = gen_script(c, u.maxoff); s->limit = 400000; std::size_t n = 1 + c.s.choose(12); s128 out[16], o2[16]; int kind = (int)c.s.choose(2); u64 pos = 0, p2 = 0;
    NOTE(c, nm(u, lo, hi)); if (c.verbose) for (std::size_t i = 0; i < s->head.size() && i < 30; ++i) c.text << "+" << s->head[i] << " ";
    u.exact(s, pos, lo, hi, 0, out, n);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(c, out[i] >= lo && out[i] <= hi, nm(u, lo, hi) << ": value " << i << " is " << sh(out[i]));
    u.exact(s, p2, lo, hi, kind, o2, n); for (std::size_t i = 0; i < n; ++i) REQUIRE(c, out[i] == o2[i], nm(u, lo, hi) << ": value " << i << " depends on the way the range is given: " << sh(out[i]) << " or " << sh(o2[i]));
    REQUIRE(c, pos == p2, nm(u, lo, hi) << ": engine calls depend on the way the range is given");
    c.label(u.real ? "real engine" : "integer engine"); c.label((u128)(hi - lo) > u.maxoff ? "wider than engine" : (u128)(hi - lo) == u.maxoff ? "equal to engine" : "narrower than engine"); c.nontrivial(hi > lo);
}
// Complete enumeration of the engine's outputs: the probability of every result, up to the mass of the
// sequences still undecided, must be 1/n.
struct Enum { s128 lo, hi; std::vector<double> p; double undecided; u64 runs; };
static void enumerate(Ctx& c) {
    std::vector<const UInt*> small; for (std::size_t i = 0; i < all_uints().size(); ++i) if (all_uints()[i]->maxoff < 13) small.push_back(all_uints()[i]);
    const UInt& u = *small[c.enumerate(small.size())]; u64 R = u.maxoff + 1, budget = c.thorough ? 20000 : 6000;
    // range size: up to a few hundred, biased to the powers and multiples of R
    u64 n; switch (c.s.choose(3)) { case 0: n = 2 + c.s.choose(15); break; case 1: { n = R; u64 k = c.s.choose(3); while (k-- && n * R <= 400) n *= R; n += c.s.choose(2); n -= n > 2 ? 1 : 0; break; } case 2: n = 2 + c.s.choose(60); break; default: n = 2 + c.s.choose(250); }
    if ((s128)n - 1 > u.tmax - u.tmin) n = (u64)(u.tmax - u.tmin) + 1;
    if (n < 2) n = 2;
    s128 lo; switch (c.s.choose(3)) { case 0: lo = 0; break; case 1: lo = u.tmin; break; case 2: lo = u.tmax - (s128)(n - 1); break; default: lo = 7; }
    if (lo + (s128)(n - 1) > u.tmax) lo = u.tmax - (s128)(n - 1);
    Enum e = { lo, lo + (s128)(n - 1), std::vector<double>(n, 0.0), 0, 0 }; NOTE(c, nm(u, lo, e.hi) << ", all engine sequences");
    // breadth first, so that the undecided mass is as small as the budget allows
    std::vector<std::vector<u64> > level(1), next; double w = 1; ScriptP s(new Script); s->limit = ~0ull;
    while (!level.empty()) {
        next.clear(); bool stop = level.size() * (R + 1) + e.runs > budget;
        for (std::size_t i = 0; i < level.size(); ++i) {
            s->head = level[i]; u64 pos = 0; s128 v; ++e.runs;
            u.exact(s, pos, e.lo, e.hi, 0, &v, 1); if (pos > level[i].size()) { // undecided so far
                if (stop) { e.undecided += w; continue; } for (u64 k = 0; k < R; ++k) { next.push_back(level[i]); next.back().push_back(k); } continue; }
            REQUIRE(c, v >= e.lo && v <= e.hi, nm(u, e.lo, e.hi) << ": returned " << sh(v)); e.p[(std::size_t)(v - e.lo)] += w;
        }
        level.swap(next); w /= R;
    }
    for (u64 i = 0; i < n; ++i) REQUIRE(c, e.p[i] <= 1.0 / n + 1e-12 && e.p[i] + e.undecided >= 1.0 / n - 1e-12, nm(u, e.lo, e.hi) << ": P(" << sh(e.lo + (s128)i) << ") is between " << e.p[i] << " and " << e.p[i] + e.undecided << ", not " << 1.0 / n);
    c.label(e.undecided < 1e-6 ? "undecided <1e-6" : e.undecided < 0.01 ? "undecided <1%" : "undecided >1%"); c.nontrivial();
}
// every value of an engine with up to 2^16 values as the first output: the one-call results must be equally
// frequent, and more than half of the engine's values must be accepted at once
static void preimages(Ctx& c) {
    std::vector<const UInt*> mid; for (std::size_t i = 0; i < all_uints().size(); ++i) { const UInt* u = all_uints()[i]; if (u->maxoff >= 12 && u->maxoff <= 70000 && u->type != "signed char") mid.push_back(u); }
    const UInt& u = *mid[c.enumerate(mid.size())]; u64 R = u.maxoff + 1, n; s128 lo;
    switch (c.s.choose(4)) { case 0: n = 2 + c.s.choose(50); break; case 1: n = R / (1 + c.s.choose(6)) + c.s.choose(4); n -= n > 2 ? 2 : 0; break; case 2: n = (u64)1 << c.s.range(1, 16); break; default: n = 2 + c.s.choose(R - 2); }
    if (n < 2) n = 2; if (n > R) n = R; if ((s128)n > u.tmax - u.tmin + 1) n = (u64)(u.tmax - u.tmin + 1);
    switch (c.s.choose(2)) { case 0: lo = u.tmin; break; case 1: lo = u.tmax - (s128)(n - 1); break; default: lo = 0; } if (lo + (s128)(n - 1) > u.tmax) lo = u.tmax - (s128)(n - 1);
    NOTE(c, nm(u, lo, lo + (s128)(n - 1)) << ", every first engine value"); std::vector<u32> cnt(n, 0); u64 rej = 0; ScriptP s(new Script); s->limit = ~0ull; s->head.resize(1);
    for (u64 k = 0; k < R; ++k) { s->head[0] = k; u64 pos = 0; s128 v; u.exact(s, pos, lo, lo + (s128)(n - 1), 0, &v, 1); if (pos > 1) { ++rej; continue; } if (!(v >= lo && v < lo + (s128)n)) REQUIRE(c, false, nm(u, lo, lo + (s128)(n - 1)) << ": returned " << sh(v)); ++cnt[(std::size_t)(v - lo)]; }
    for (u64 i = 1; i < n; ++i) REQUIRE(c, cnt[i] == cnt[0], nm(u, lo, lo + (s128)(n - 1)) << ": " << sh(lo + (s128)i) << " has " << cnt[i] << " engine values and " << sh(lo) << " has " << cnt[0]);
    REQUIRE(c, rej * 2 <= R, nm(u, lo, lo + (s128)(n - 1)) << ": rejects " << rej << " of " << R << " engine values");
    c.label("preimages"); c.nontrivial();
}
// chi-square over up to 64 classes; k(v) in [0,m) is the class of a value, all equally likely up to 2^-40
static void chi2(Ctx& c, const std::string& what, const std::vector<double>& obs, const std::vector<double>& prob, double total) {
    double x = 0; int df = -1; for (std::size_t i = 0; i < obs.size(); ++i) { double e = prob[i] * total; if (e <= 0) { REQUIRE(c, obs[i] == 0, what << ": impossible class " << i << " occurred"); continue; } x += (obs[i] - e) * (obs[i] - e) / e; ++df; }
    if (df < 1) return; double z = (std::pow(x / df, 1.0 / 3) - (1 - 2.0 / (9 * df))) / std::sqrt(2.0 / (9 * df)); // Wilson-Hilferty
    REQUIRE(c, z < 7.5, what << ": not uniform (chi-square " << x << " with " << df << " degrees of freedom)");
}
template<class G> static void goodT(Ctx& c, const char* g, u64 seed, const UInt* /*unused*/) {
    G eng((typename std::conditional<std::is_floating_point<typename G::result_type>::value, u32, u32>::type)seed);
    s128 lo, hi; UIntT<long long, SEng<u64, 0u, ~0ull> > t("long long", g); UIntT<unsigned, SEng<u32, 0u, 0xffffffffu> > t2("unsigned", g); bool wide = c.s.coin();
    if (wide) gen_range(c, t, lo, hi); else gen_range(c, t2, lo, hi); u128 w = (u128)(hi - lo); if (w < 1) { hi = lo + 1; if (hi > (wide ? t.tmax : t2.tmax)) { hi = lo; --lo; } w = 1; }
    const int N = 20000; std::string n = nm(wide ? (const UInt&)t : (const UInt&)t2, lo, hi); NOTE(c, n);
    u64 B = w < 63 ? (u64)w + 1 : 64; std::vector<double> top(B, 0), mod(B, 0), pt(B, 0), pm(B, 0); u64 m3 = 0;
    br::uniform_int_distribution<long long> d1((long long)(wide ? lo : 0), (long long)(wide ? hi : 0)); br::uniform_int_distribution<unsigned> d2((unsigned)(wide ? 0 : lo), (unsigned)(wide ? 0 : hi));
    for (int i = 0; i < N; ++i) { s128 v = wide ? (s128)d1(eng) : (s128)d2(eng); REQUIRE(c, v >= lo && v <= hi, n << ": returned " << sh(v)); u128 o = (u128)(v - lo); ++top[(std::size_t)(w < 63 ? o : (o / ((w / B) + 1)) )]; ++mod[(std::size_t)(o % B)]; }
    for (u64 i = 0; i < B; ++i) { u128 q = w / B + 1, a = q * i, b = a + q; if (w < 63) { a = i; b = i + 1; } if (a > w) a = w + 1; if (b > w + 1) b = w + 1; pt[i] = (double)((long double)(b - a) / (long double)(w + 1)); u128 cntm = w / B + ((w % B) >= i ? 1 : 0); pm[i] = (double)((long double)cntm / (long double)(w + 1)); }
    // classes that are too thin for the statistic are merged into the one before
    for (std::size_t i = B; i-- > 1;) if (pt[i] * N < 5) { pt[i - 1] += pt[i]; top[i - 1] += top[i]; pt.erase(pt.begin() + i); top.erase(top.begin() + i); }
    (void)m3; chi2(c, n + ", sixty-fourths of the range", top, pt, N); chi2(c, n + ", residues", mod, pm, N); c.label(g); c.nontrivial();
}
static void good(Ctx& c) {
    u64 which = c.enumerate(7); u64 seed = 1 + c.s.choose(2000000000);
    switch (which) {
    case 0: goodT<br::mt19937>(c, "mt19937", seed, 0); break; case 1: goodT<br::minstd_rand>(c, "minstd_rand", seed, 0); break; case 2: goodT<br::ranlux24>(c, "ranlux24", seed, 0); break;
    case 3: goodT<br::mt19937_64>(c, "mt19937_64", seed, 0); break; case 4: goodT<br::lagged_fibonacci607>(c, "lagged_fibonacci607", seed, 0); break; case 5: goodT<br::rand48>(c, "rand48", seed, 0); break; default: goodT<br::ranlux3_01>(c, "ranlux3_01", seed, 0); break;
    }
}
// average number of engine calls
static void calls(Ctx& c) {
    const UInt& u = *all_uints()[c.enumerate(all_uints().size())]; s128 lo, hi; gen_range(c, u, lo, hi); ScriptP s(new Script); s->tail = c.s.choose(~0ull); s->limit = 400000; const std::size_t n = 600; std::vector<s128> out(n); u64 pos = 0;
    NOTE(c, nm(u, lo, hi) << ", engine calls of " << n << " draws"); u.exact(s, pos, lo, hi, 0, out.data(), n);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(c, out[i] >= lo && out[i] <= hi, nm(u, lo, hi) << ": returned " << sh(out[i]));
    double digits = 1; { long double w = (long double)(hi - lo) + 1, p = (long double)u.maxoff + 1; while (p < w) { p *= (long double)u.maxoff + 1; ++digits; } }
    // at most two tries per draw, and per digit, on average; six standard deviations of a geometric count on top
    double bound = (2 * digits + 4) * (1 + 6 / std::sqrt((double)n)); REQUIRE(c, pos <= bound * n, nm(u, lo, hi) << ": " << (double)pos / n << " engine calls per value");
    c.label("calls"); c.nontrivial(hi > lo);
}
// arbitrary precision results
template<class I, class G> static void mpT(Ctx& c, const char* n, int maxbits, bool sgn) {
    G g((u32)(1 + c.s.choose(1000000000))); int bits = (int)c.s.range(1, maxbits); pbt::Prng p(c.s.choose(~0ull)); I w = 0; for (int i = 0; i < bits; i += 32) w = (w << 32) | (u32)p.next();
    I one = 1; w &= (one << (bits - 1)) | ((one << (bits - 1)) - 1); if (c.s.chance(1, 4)) w = (one << (bits - 1)) - (c.s.coin() ? 1 : 0); if (w < 2) w = 2;
    I lo = 0; if (c.s.coin()) lo = I(c.s.choose(1000000)) * (sgn && c.s.coin() ? 1 : 1); if (sgn && c.s.coin()) lo = lo - w / 2; I hi = lo + w; if (hi < lo) { lo = 0; hi = w; }
    std::ostringstream os; os << n << "(" << lo << ", " << hi << ")"; std::string what = os.str(); NOTE(c, what); br::uniform_int_distribution<I> d(lo, hi); const int N = 1500; std::vector<double> top(8, 0), mod(8, 0), pt(8, 0), pm(8, 0); I q = w / 8 + 1;
    for (int i = 0; i < N; ++i) { I v = d(g); REQUIRE(c, v >= lo && v <= hi, what << ": returned " << v); I o = v - lo; ++top[(std::size_t)static_cast<unsigned>(I(o / q))]; ++mod[(std::size_t)static_cast<unsigned>(I(o % 8))]; }
    long double W = static_cast<long double>(w) + 1; for (unsigned i = 0; i < 8; ++i) { I a = q * i, b = a + q; if (a > w) a = w + 1; if (b > w + 1) b = w + 1; pt[i] = (double)(static_cast<long double>(I(b - a)) / W); I cm = w / 8; if (I(w % 8) >= i) cm += 1; pm[i] = (double)(static_cast<long double>(cm) / W); }
    chi2(c, what + ", eighths of the range", top, pt, N); chi2(c, what + ", residues", mod, pm, N);
    br::uniform_smallint<I> sm(lo, hi); for (int i = 0; i < 50; ++i) { if (static_cast<long double>(w) > 4e9L) break; I v = sm(g); REQUIRE(c, v >= lo && v <= hi, n << " (small): returned " << v); }
    c.label(n); c.nontrivial();
}
static void multi(Ctx& c) {
    switch (c.enumerate(6)) {
    case 0: mpT<mp::cpp_int, br::mt19937>(c, "uniform_int<cpp_int> over mt19937", 400, true); break; case 1: mpT<mp::cpp_int, br::minstd_rand>(c, "uniform_int<cpp_int> over minstd_rand", 200, true); break;
    case 2: mpT<mp::uint128_t, br::mt19937>(c, "uniform_int<uint128_t> over mt19937", 127, false); break; case 3: mpT<mp::uint256_t, br::mt19937_64>(c, "uniform_int<uint256_t> over mt19937_64", 255, false); break;
    case 4: mpT<mp::uint512_t, br::taus88>(c, "uniform_int<uint512_t> over taus88", 500, false); break; default: mpT<mp::cpp_int, br::rand48>(c, "uniform_int<cpp_int> over rand48", 300, true); break;
    }
}
}
namespace pbt { void register_checks() {
    add("in_range", 400000, 8000000, vf::in_range);
    add("enumerate", 2000, 20000, vf::enumerate);
    add("preimages", 1200, 30000, vf::preimages);
    add("good", 5000, 60000, vf::good);
    add("calls", 20000, 300000, vf::calls);
    add("multiprecision", 300, 6000, vf::multi);
} }
