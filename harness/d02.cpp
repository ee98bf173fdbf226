// D02: one-call integers on a small range.
#include "uint.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/multiprecision/cpp_int.hpp>
namespace br = boost::random;
namespace mp = boost::multiprecision;
const char* pbt_rule = "a case counts as non-trivial when a range of more than one value was drawn from an engine whose outputs were scripted (extremes included), completely enumerated, or probed for the preimages of chosen results; distinctness is over type, engine range, requested range and script";
namespace vf {
const UInts& all_uints() { static UInts v; if (v.empty()) { uint_a(v); uint_b(v); uint_c(v); uint_d(v); } return v; }
static std::string nm(const UInt& u, s128 lo, s128 hi) { return "uniform_smallint<" + u.type + ">(" + sh(lo) + ", " + sh(hi) + ") over " + u.engine; }
// any range, any stream: in range, one engine call each, the same through every route
static void one_call(Ctx& c) {
    const UInt& u = *all_uints()[c.enumerate(all_uints().size())]; s128 lo, hi; gen_range(c, u, lo, hi);
    ScriptP s = gen_script(c, u.maxoff); s->limit = 4000; std::size_t n = 1 + c.s.choose(12); s128 out[16], o2[16]; u64 pos = 0, p2 = 0; NOTE(c, nm(u, lo, hi)); if (c.verbose) for (std::size_t i = 0; i < s->head.size() && i < 30; ++i) c.text << "+" << s->head[i] << " ";
    u.small(s, pos, lo, hi, 0, out, n); u.small(s, p2, lo, hi, 1, o2, n);
    REQUIRE(c, pos == n && p2 == n, nm(u, lo, hi) << ": " << n << " draws used " << pos << " or " << p2 << " engine calls");
    for (std::size_t i = 0; i < n; ++i) { REQUIRE(c, out[i] >= lo && out[i] <= hi, nm(u, lo, hi) << ": value " << i << " is " << sh(out[i])); REQUIRE(c, out[i] == o2[i], nm(u, lo, hi) << ": value " << i << " depends on the way the range is given: " << sh(out[i]) << " or " << sh(o2[i])); }
    // a draw is a function of one engine value only
    u64 p = n - 1; s128 again; u.small(s, p, lo, hi, 0, &again, 1); REQUIRE(c, again == out[n - 1], nm(u, lo, hi) << ": draw " << n - 1 << " depends on earlier ones");
    c.label(u.real ? "real engine" : "integer engine"); c.label((u128)(hi - lo) > u.maxoff ? "wider than engine" : (u128)(hi - lo) == u.maxoff ? "equal to engine" : "narrower than engine"); c.nontrivial(hi > lo);
}
static void counts(Ctx& c, const std::string& what, const std::vector<u32>& cnt, u64 R, bool real) {
    u64 n = cnt.size(), f = R / n, g = f + (R % n ? 1 : 0);
    for (u64 i = 0; i < n; ++i) {
        if (real) REQUIRE(c, (cnt[i] >= 1 || n > R) && (u64)cnt[i] + 2 >= f && cnt[i] <= g + 2, what << ": result " << i << " of " << n << " has " << cnt[i] << " of " << R << " engine values");
        else REQUIRE(c, cnt[i] >= f && cnt[i] <= g, what << ": result " << i << " of " << n << " has " << cnt[i] << " of " << R << " engine values (best is " << f << " to " << g << ")");
    }
    if (!real) { // the documented bound on the squared relative error
        long double sum = 0, rb = R, ro = n, r = R % n; for (u64 i = 0; i < n; ++i) { long double d = cnt[i] / rb * ro - 1; sum += d * d; } long double bound = ro / (rb * rb) * r * (ro - r); REQUIRE(c, sum <= bound * (1 + 1e-9L) + 1e-12L, what << ": squared relative error " << sum << " above the documented " << bound);
    }
}
// every engine value, for engines of up to 2^16 values
static void cycle(Ctx& c) {
    std::vector<const UInt*> mid; for (std::size_t i = 0; i < all_uints().size(); ++i) if (all_uints()[i]->maxoff <= 70000) mid.push_back(all_uints()[i]);
    const UInt& u = *mid[c.enumerate(mid.size())]; u64 R = u.maxoff + 1, n; s128 lo, full = u.tmax - u.tmin;
    switch (c.s.choose(5)) { case 0: n = 1 + c.s.choose(50); break; case 1: n = R / (1 + c.s.choose(6)) + c.s.choose(4); n -= n > 2 ? 2 : 0; break; case 2: n = (u64)1 << c.s.range(0, 16); break; case 3: n = R + c.s.choose(R); break; default: n = 1 + c.s.choose(R - 1); }
    if (n < 1) n = 1; if ((s128)n > full + 1) n = (u64)full + 1;
    switch (c.s.choose(3)) { case 0: lo = u.tmin; break; case 1: lo = u.tmax - (s128)(n - 1); break; case 2: lo = 0; break; default: lo = -(s128)(n / 2); } if (lo < u.tmin) lo = u.tmin; if (lo + (s128)(n - 1) > u.tmax) lo = u.tmax - (s128)(n - 1);
    s128 hi = lo + (s128)(n - 1); std::string what = nm(u, lo, hi); NOTE(c, what << ", every engine value"); std::vector<u32> cnt(n, 0); ScriptP s(new Script); for (u64 k = 0; k < R; ++k) s->head.push_back(k);
    std::vector<s128> out(R); u64 pos = 0; u.small(s, pos, lo, hi, 0, out.data(), R); REQUIRE(c, pos == R, what << ": more than one engine call per value");
    for (u64 k = 0; k < R; ++k) { if (!(out[k] >= lo && out[k] <= hi)) REQUIRE(c, false, what << ": engine offset " << k << " gives " << sh(out[k])); ++cnt[(std::size_t)(out[k] - lo)]; }
    counts(c, what, cnt, R, u.real); c.label(n > R ? "wider" : R % n ? "uneven" : "divides"); c.nontrivial(n > 1);
}
// real engines: all their values
template<class F, int bits> struct CountEng { typedef F result_type; u64 k; static F min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static F max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 1; } F operator()() { return std::ldexp((F)(k++), -bits); } };
template<class T, class F, int bits> static void realT(Ctx& c, const char* nm) {
    u64 R = (u64)1 << bits, cap = (u64)(std::numeric_limits<T>::max)() + ((std::numeric_limits<T>::min)() < 0 ? (u64)(std::numeric_limits<T>::max)() + 1 : 0), n;
    switch (c.s.choose(3)) { case 0: n = 1 + c.s.choose(200); break; case 1: n = R / (1 + c.s.choose(5)) - c.s.choose(3); break; case 2: n = (u64)1 << c.s.range(0, bits); break; default: n = 1 + c.s.choose(R - 1); }
    if (n - 1 > cap) n = cap + 1; if (n < 1) n = 1;
    s128 l = c.s.coin() ? (s128)(std::numeric_limits<T>::min)() : (s128)(std::numeric_limits<T>::max)() - (s128)(n - 1); T lo = (T)l, hi = (T)(l + (s128)(n - 1));
    std::ostringstream os; os << "uniform_smallint<" << nm << ">(" << (long long)lo << ", " << (long long)hi << "), all " << R << " engine values"; NOTE(c, os.str()); std::vector<u32> cnt(n, 0); br::uniform_smallint<T> d(lo, hi); CountEng<F, bits> e = { 0 };
    for (u64 k = 0; k < R; ++k) { T v = d(e); if (!(v >= lo && v <= hi) || e.k != k + 1) REQUIRE(c, false, os.str() << ": engine value " << k << " gives " << (long long)v << ", calls " << e.k); ++cnt[(std::size_t)((s128)v - (s128)lo)]; }
    counts(c, os.str(), cnt, R, true); c.label(nm); c.nontrivial(n > 1);
}
static void real_cycle(Ctx& c) {
    switch (c.enumerate(8)) { case 0: realT<int, float, 24>(c, "int from float24"); break; case 1: realT<long long, float, 18>(c, "long long from float18"); break; case 2: realT<short, double, 20>(c, "short from double20"); break; case 3: realT<unsigned, double, 21>(c, "unsigned from double21"); break; case 4: realT<signed char, float, 16>(c, "signed char from float16"); break; case 5: realT<int, long double, 20>(c, "int from long double20"); break; case 6: realT<unsigned short, float, 20>(c, "unsigned short from float20"); break; default: realT<unsigned long long, float, 19>(c, "unsigned long long from float19"); }
}
// wide engines: chosen results must have preimages, and chunks of the range their share of the engine's values
static void wide(Ctx& c) {
    std::vector<const UInt*> w; for (std::size_t i = 0; i < all_uints().size(); ++i) if (all_uints()[i]->maxoff > 70000) w.push_back(all_uints()[i]);
    const UInt& u = *w[c.enumerate(w.size())]; s128 lo, hi; gen_range(c, u, lo, hi); u128 R = (u128)u.maxoff + 1; if ((u128)(hi - lo) >= R) hi = lo + (s128)(R - 1); if (hi == lo) { if (hi < u.tmax) ++hi; else --lo; } u128 n = (u128)(hi - lo) + 1;
    std::string what = nm(u, lo, hi); NOTE(c, what);
    int kmax = u.engine == "float" ? 24 : u.engine == "double" ? 53 : 64; bool exact_real = u.real && n > ((u128)1 << (kmax - 2)); // rounding may decide near the width of the mantissa
    for (int t = 0; t < 6 && !exact_real; ++t) {
        u128 i = c.s.special((u64)(n - 1)); bool found = false; ScriptP s(new Script);
        u128 sc = n ? (i >> 62 ? (u128)((long double)i / (long double)n * (long double)R) : i * R / n) : 0;
        for (int k = -3; k <= 3; ++k) { if ((s128)sc + k >= 0 && (u128)((s128)sc + k) < R) s->head.push_back((u64)((s128)sc + k)); } s->head.push_back((u64)i); if (R - 1 >= i) s->head.push_back((u64)(R - 1 - i));
        if (sc > 2048) for (int k = 1; k <= 12; ++k) { s->head.push_back((u64)sc - ((u64)1 << (k - 1))); if (sc + ((u64)1 << (k - 1)) < R) s->head.push_back((u64)sc + ((u64)1 << (k - 1))); }
        std::vector<s128> out(s->head.size()); u64 pos = 0; u.small(s, pos, lo, hi, 0, out.data(), out.size()); for (std::size_t k = 0; k < out.size(); ++k) { REQUIRE(c, out[k] >= lo && out[k] <= hi, what << ": returned " << sh(out[k])); found = found || (u128)(out[k] - lo) == i; }
        if (!found && R <= ((u128)1 << 32)) { // look at every engine value before complaining
            ScriptP a(new Script); const u64 B = 1 << 16; std::vector<s128> o(B); for (u128 b = 0; b < R && !found; b += B) { a->head.clear(); for (u64 k = 0; k < B && b + k < R; ++k) a->head.push_back((u64)(b + k)); u64 p = 0; u.small(a, p, lo, hi, 0, o.data(), a->head.size()); for (std::size_t k = 0; k < a->head.size(); ++k) found = found || (u128)(o[k] - lo) == i; }
        }
        REQUIRE(c, found, what << ": no engine value found that gives " << sh(lo + (s128)i));
    }
    const std::size_t N = 4000; ScriptP s(new Script); s->tail = c.s.choose(~0ull); std::vector<s128> out(N); u64 pos = 0; u.small(s, pos, lo, hi, 0, out.data(), N); REQUIRE(c, pos == N, what << ": " << pos << " engine calls for " << N << " values");
    u64 B = n < 16 ? (u64)n : 16; std::vector<u64> top(B, 0), mod(B, 0); u128 q = (n - 1) / B + 1; for (std::size_t i = 0; i < N; ++i) { REQUIRE(c, out[i] >= lo && out[i] <= hi, what << ": returned " << sh(out[i])); u128 o = (u128)(out[i] - lo); ++top[(std::size_t)(o / q)]; ++mod[(std::size_t)(o % B)]; }
    long double f = (long double)(R / n) / (long double)R, g = (long double)(R / n + (R % n ? 1 : 0)) / (long double)R; bool par = u.real && n > ((u128)1 << (kmax - 1));
    for (u64 i = 0; i < B; ++i) {
        u128 a = q * i, b = a + q; if (a > n) a = n; if (b > n) b = n; u128 cm = n / B + (n % B > i ? 1 : 0);
        for (int k = 0; k < (par ? 1 : 2); ++k) { long double m = k ? (long double)cm : (long double)(b - a), pl = m * f, pg = m * g, sd; if (pg > 1) pg = 1; if (u.real && n > ((u128)1 << (kmax - 8))) { pl *= 0.98L; pg = pg * 1.02L > 1 ? 1 : pg * 1.02L; } u64 o = k ? mod[i] : top[i];
            sd = std::sqrt((double)(N * (pl * (1 - pl) > pg * (1 - pg) ? pl * (1 - pl) : pg * (1 - pg)))); if (pl < 0.5L && pg > 0.5L) sd = std::sqrt((double)N) / 2;
            REQUIRE(c, o + 7.5 * sd + 8 >= N * pl && o <= N * pg + 7.5 * sd + 8, what << ": " << (k ? "residue class " : "part ") << i << " of " << B << " got " << o << " of " << N << " values, expected " << (double)(N * pl) << " to " << (double)(N * pg)); }
    }
    c.label(u.engine); c.nontrivial();
}
// engines of the library, and arbitrary precision results
template<class I, class G> static void libT(Ctx& c, const char* n) {
    G g((u32)(1 + c.s.choose(1000000000))); u64 m = c.s.coin() ? 1 + c.s.choose(63) : 1 + c.s.choose(60000); I lo = (I)c.s.choose(50), hi = lo + (I)m; std::ostringstream os; os << n << " on " << m + 1 << " values"; NOTE(c, os.str()); br::uniform_smallint<I> d(lo, hi); std::size_t B = m < 64 ? (std::size_t)m + 1 : 64, N = 6000; std::vector<double> top(B, 0), mod(B, 0);
    for (std::size_t i = 0; i < N; ++i) { I v = d(g); REQUIRE(c, v >= lo && v <= hi, os.str() << ": returned " << v); u64 o = static_cast<u64>(I(v - lo)); ++top[(std::size_t)(o * B / (m + 1))]; ++mod[(std::size_t)(o % B)]; }
    for (int k = 0; k < 2; ++k) { double x = 0; for (std::size_t i = 0; i < B; ++i) { u64 lo_i = (i * (m + 1) + B - 1) / B, hi_i = ((i + 1) * (m + 1) + B - 1) / B; double e = k ? (double)((m + 1) / B + ((m + 1) % B > i ? 1 : 0)) : (double)(hi_i - lo_i); e *= (double)N / (double)(m + 1); double ob = k ? mod[i] : top[i]; x += (ob - e) * (ob - e) / e; }
        double df = B - 1.0; if (df < 1) continue; double z = (std::pow(x / df, 1.0 / 3) - (1 - 2.0 / (9 * df))) / std::sqrt(2.0 / (9 * df)); REQUIRE(c, z < 7.5, os.str() << ": " << (k ? "residues" : "parts of the range") << " uneven, chi-square " << x << " with " << df); }
    c.label(n); c.nontrivial();
}
static void library(Ctx& c) {
    switch (c.enumerate(10)) {
    case 0: libT<int, br::mt19937>(c, "int over mt19937"); break; case 1: libT<unsigned, br::minstd_rand>(c, "unsigned over minstd_rand"); break; case 2: libT<long long, br::mt19937_64>(c, "long long over mt19937_64"); break;
    case 3: libT<int, br::lagged_fibonacci607>(c, "int over lagged_fibonacci607"); break; case 4: libT<unsigned short, br::ranlux3_01>(c, "unsigned short over ranlux3_01"); break; case 5: libT<int, br::ranlux64_3_01>(c, "int over ranlux64_3_01"); break;
    case 6: libT<mp::cpp_int, br::mt19937>(c, "cpp_int over mt19937"); break; case 7: libT<mp::uint128_t, br::mt19937_64>(c, "uint128_t over mt19937_64"); break; case 8: libT<mp::uint256_t, br::minstd_rand>(c, "uint256_t over minstd_rand"); break; default: libT<int, br::rand48>(c, "int over rand48");
    }
}
}
namespace pbt { void register_checks() {
    add("one_call", 300000, 6000000, vf::one_call);
    add("cycle", 1500, 40000, vf::cycle);
    add("real_cycle", 40, 600, vf::real_cycle);
    add("wide", 10000, 200000, vf::wide);
    add("library", 3000, 60000, vf::library);
} }
