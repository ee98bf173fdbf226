// E09: block generation.
#include "eng.hpp"
#include <set>
#include <boost/random/discard_block.hpp>
namespace br = boost::random;
const char* pbt_rule = "a case counts as non-trivial when a block was filled from an engine with a generated history and compared between iterator kinds or lengths, or when at least 2000 words from an engine with an arbitrary output range were tested statistically; distinctness is over engine, history, length and iterator kind";
namespace vf {
// which iterator kind; returns the words
static std::vector<u32> fill(Ctx& c, const EngInfo& e, IEng& g, std::size_t n, int kind) {
    std::vector<u32> r(n);
    switch (kind) {
    case 0: { std::unique_ptr<u32[]> h(new u32[n]); g.gen32(h.get(), h.get() + n); std::copy(h.get(), h.get() + n, r.begin()); break; } // exact-size block under the address sanitizer
    case 1: { std::vector<u32> v(n + 6, 0xC3A5C3A5u); g.gen32(v.data() + 3, v.data() + 3 + n); for (int k = 0; k < 3; ++k) REQUIRE(c, v[k] == 0xC3A5C3A5u && v[n + 3 + k] == 0xC3A5C3A5u, e.name << ": generate wrote outside its range of " << n); std::copy(v.begin() + 3, v.begin() + 3 + n, r.begin()); break; }
    case 2: { const u64 guard = 0xC3A5C3A511223344ull; std::vector<u64> v(n + 4, guard); g.gen64(v.begin() + 2, v.begin() + 2 + n); for (int k = 0; k < 2; ++k) REQUIRE(c, v[k] == guard && v[n + 2 + k] == guard, e.name << ": generate wrote outside its range of " << n << " 64-bit elements");
        for (std::size_t i = 0; i < n; ++i) { if (v[i + 2] >> 32) { if (e.name == "splitmix64") c.finding = "splitmix64-generate-wide"; REQUIRE(c, false, e.name << ": generate into 64-bit elements stored " << v[i + 2] << ", not a 32-bit word"); } r[i] = (u32)v[i + 2]; } break; }
    case 3: { std::list<u32> l(n + 2, 77u); std::list<u32>::iterator f = l.begin(), b = l.end(); ++f; --b; g.genlist(f, b); REQUIRE(c, l.front() == 77u && l.back() == 77u, e.name << ": generate wrote outside its list range of " << n); std::copy(f, b, r.begin()); break; }
    default: { std::vector<int> cnt(n, 0); OnceIt f = { &r, &cnt, 0 }, l = { &r, &cnt, n }; 
        if (e.name == "splitmix64") { g.gen32(r.data(), r.data() + n); break; }
        g.genonce(f, l); for (std::size_t i = 0; i < n; ++i) REQUIRE(c, cnt[i] == 1, e.name << ": element " << i << " of " << n << " was assigned " << cnt[i] << " times"); }
    }
    return r;
}
static std::size_t block_len(Ctx& c, const EngInfo& e) {
    if (c.s.chance(1, 5)) return 0;
    return (std::size_t)c.s.count(e.hints, e.cost > 10 ? 120 : 700);
}
static void kinds(Ctx& c) {
    const EngInfo& e = pick_engine(c); EngP a = gen_engine(c, e, 1500), b(a->clone()), d(a->clone()), z(a->clone());
    std::size_t n = block_len(c, e); int k1 = (int)c.s.choose(4), k2 = (int)c.s.choose(4); NOTE(c, "fill " << n << " elements by iterator kinds " << k1 << " and " << k2);
    std::vector<u32> x = fill(c, e, *a, n, k1), y = fill(c, e, *b, n, k2);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(c, x[i] == y[i], e.name << ": word " << i << " of " << n << " depends on the iterator kind: " << x[i] << " vs " << y[i]);
    REQUIRE(c, a->eq(*b), e.name << ": the engine's state after filling " << n << " elements depends on the iterator kind");
    if (n == 0) REQUIRE(c, a->eq(*z), e.name << ": filling an empty range changed the engine");
    // a shorter block from the same state is a prefix
    std::size_t m = n ? c.s.choose(n - 1) : 0; std::vector<u32> w = fill(c, e, *d, m, k1);
    for (std::size_t i = 0; i < m; ++i) REQUIRE(c, w[i] == x[i], e.name << ": word " << i << " depends on the block length (" << m << " or " << n << ")");
    // full-word engines: the outputs themselves, in order, and in pieces
    if (e.word_engine) {
        EngP p(z->clone()), q(z->clone());
        for (std::size_t i = 0; i < n; ++i) { u32 v = (u32)p->draw(); REQUIRE(c, x[i] == v, e.name << ": word " << i << " is " << x[i] << ", the engine's own value is " << v); }
        REQUIRE(c, p->eq(*a), e.name << ": filling " << n << " words and " << n << " calls leave different engines");
        std::vector<u32> u = fill(c, e, *q, m, k2), t = fill(c, e, *q, n - m, k1); u.insert(u.end(), t.begin(), t.end());
        REQUIRE(c, u == x, e.name << ": filling in two pieces gives other words");
    }
    same_future(c, e, *a, *b, 40, e.name + ": after filling");
    c.label(e.family); c.label(n == 0 ? "n=0" : n < 4 ? "n<4" : "n>=4"); c.nontrivial();
}
// every bit of the words of every sound engine takes both values about equally often
static void engine_bits(Ctx& c) {
    // engines that are good bit sources; toy parameter sets are left to the other checks
    static const std::set<std::string> strong = { "minstd_rand0", "minstd_rand", "rand48", "lcg_40014", "lcg_p60", "lcg_p64", "lcg_m61", "lcg_p48", "ecuyer1988", "hellekalek1995", "taus88", "mixmax", "splitmix64", "kreutzer1986", "knuth_b", "mt11213b", "mt19937", "mt19937_64", "shuffle_mt_100", "shuffle_mt64_7", "ranlux24_base", "ranlux48_base", "ranlux64_base", "ranlux24", "ranlux48", "ranlux3", "ranlux3_01", "ranlux64_3_01", "ranlux_base_01", "ranlux64_base_01", "swc01_ld_63", "swc_63_2_5", "ib_minstd_32", "ib_minstd_17", "ib_mt_64", "ib_mt_32", "ib_mt_33", "ib_k_37", "lf48_607", "lagged_fibonacci607", "lagged_fibonacci1279", "lagged_fibonacci2281", "db_mt_10_10" };
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return strong.count(i.name) != 0; });
    SeedSpec s; s.kind = S_VALUE; s.value = 1 + c.s.choose(mask_bits(std::min(e.seed_bits, 31)) - 1);
    EngP a = make_engine(e, s); a->discard(2 * future_len(e)); const std::size_t n = 2500; std::vector<u32> v(n); a->gen32(v.data(), v.data() + n);
    NOTE(c, e.name << " by " << show(s) << ", " << n << " words");
    for (int b = 0; b < 32; ++b) {
        std::size_t ones = 0; for (u32 x : v) ones += (x >> b) & 1;
        if (e.name == "rand48" && b == 31 && ones == 0) c.finding = "rand48-generate-top-bit";
        REQUIRE(c, ones > n * 2 / 5 && ones < n * 3 / 5, e.name << ": bit " << b << " was set in " << ones << " of " << n << " words"); // 10 standard deviations
    }
    c.label(e.family); c.nontrivial();
}
// A base engine with any integer range, driven by the harness' own generator; block generation reaches it through discard_block<.,1,1>.
template<class T, T lo, T hi> struct Base {
    typedef T result_type; static const bool has_fixed_range = false; pbt::Prng g;
    Base() {} explicit Base(u64 s) : g(s) {}
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return lo; } static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return hi; }
    T operator()() { u128 r = (u128)((__int128)hi - (__int128)lo) + 1; u64 v = r > ~0ull ? g.next() : (u64)(((u128)g.next() * r) >> 64); return (T)((u64)lo + v); }
};
template<class T, int digits> struct RBase {
    typedef T result_type; static const bool has_fixed_range = false; pbt::Prng g; RBase() {} explicit RBase(u64 s) : g(s) {}
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 1; }
    T operator()() { return std::ldexp((T)(digits >= 64 ? g.next() : g.next() >> (64 - digits)), -digits); }
};
static void chi(Ctx& c, const char* name, const std::vector<u32>& v) {
    const std::size_t n = v.size();
    for (int k = 0; k < 4; ++k) { // each byte uniform: chi-square with 255 degrees of freedom; 8.5 standard deviations
        std::vector<double> h(256, 0); for (u32 x : v) ++h[(x >> (8 * k)) & 255]; double s = 0, ex = n / 256.0; for (double o : h) s += (o - ex) * (o - ex) / ex;
        REQUIRE(c, s < 255 + 10 * 22.6, name << ": byte " << k << " of the words is not uniform (chi-square " << s << " with 255 degrees of freedom over " << n << " words)");
        REQUIRE(c, s > 255 - 8 * 22.6, name << ": byte " << k << " of the words is too even (chi-square " << s << ")");
    }
    for (int d = 1; d <= 40; ++d) { // bits at distance d in the concatenation are unrelated
        u64 same = 0, tot = 0; for (std::size_t i = 0; i + 2 < n; i += 1) { u64 a = v[i] | (u64)v[i + 1] << 32, b = (d < 32 ? a >> d : (u64)v[i + 1] >> (d - 32) | (u64)v[i + 2] << (64 - d)); u32 x = (u32)a ^ (u32)b; same += __builtin_popcount(x); tot += 32; }
        double z = (same - tot / 2.0) / std::sqrt(tot / 4.0); REQUIRE(c, std::fabs(z) < 8.5, name << ": bits at distance " << d << " are related (z = " << z << ")");
    }
}
template<class E> static void stat(Ctx& c, const char* name) {
    u64 seed = c.s.choose(~0ull); std::size_t n = 2000 + c.s.choose(3000); br::discard_block_engine<E, 1, 1> g((E(seed)));
    NOTE(c, name << ": " << n << " words"); std::vector<u32> v(n); g.generate(v.begin(), v.end()); chi(c, name, v);
    // the same words into wider elements, and from an equal engine
    br::discard_block_engine<E, 1, 1> h((E(seed))); std::vector<u64> w(n); h.generate(w.begin(), w.end()); for (std::size_t i = 0; i < n; ++i) REQUIRE(c, w[i] == v[i], name << ": 64-bit element " << i << " is " << w[i] << " instead of " << v[i]);
    c.label(name); c.nontrivial();
}
typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::int32_t i32;
static void any_range(Ctx& c) {
#define B(T, lo, hi) do { typedef Base<T, lo, hi> E_; stat<E_>(c, #T "[" #lo ".." #hi "]"); } while (0); break
    switch (c.enumerate(34)) {
    case 0: B(u32, 0u, 1u); case 1: B(u32, 0u, 2u); case 2: B(u32, 1u, 6u); case 3: B(u32, 0u, 255u); case 4: B(u32, 1u, 256u); case 5: B(u32, 0u, 65534u); case 6: B(u32, 0u, 65536u);
    case 7: B(u32, 1u, 2147483646u); case 8: B(u32, 0u, 0x7fffffffu); case 9: B(u32, 0u, 0xffffffffu); case 10: B(u32, 1u, 0xffffffffu); case 11: B(u32, 0u, 0xfffffffau); case 12: B(u32, 5u, 0xc0000004u);
    case 13: B(i32, -2147483647 - 1, 2147483647); case 14: B(i32, -5, 7); case 15: B(i32, 1, 2147483562); case 16: B(i64, -1000000, 5000000000ll); case 17: B(i64, (-9223372036854775807ll - 1), 9223372036854775807ll);
    case 18: B(u64, 0u, 0xffffffffffffffffull); case 19: B(u64, 1u, 0xffffffffffffffffull); case 20: B(u64, 0u, (1ull << 61) - 2); case 21: B(u64, 0u, (1ull << 48) - 1); case 22: B(u64, 0u, 4294967296ull); case 23: B(u64, 0u, 0xffffffffull);
    case 24: B(u64, 3u, 12884901890ull); case 25: B(u64, 0u, (1ull << 33) - 1); case 26: B(u64, 0u, (1ull << 63)); case 27: B(u16, 0, 65535); case 28: B(u16, 1, 40000); case 29: B(u64, 0u, 17u);
    case 30: stat<RBase<float, 24> >(c, "float[0,1)"); break; case 31: stat<RBase<double, 53> >(c, "double[0,1)"); break; case 32: stat<RBase<long double, 64> >(c, "long double[0,1)"); break;
    default: B(u32, 7u, 7u + 23u);
    }
}
}
namespace pbt { void register_checks() {
    add("kinds", 90000, 600000, vf::kinds);
    add("engine_bits", 2500, 20000, vf::engine_bits);
    add("any_range", 1700, 20000, vf::any_range);
} }
