// E01: every engine against its independent reference model.
#include "eng.hpp"
const char* pbt_rule = "a case counts as non-trivial when at least one full value beyond the first was compared against the reference model from a state whose seed is not the default, or the compared window crosses the end of the engine's state array; distinctness is over engine, seed route, seed data and position";
namespace vf {
namespace br = boost::random;
static bool has_model(const EngInfo& e) { return (bool)e.model; }

// seed words are narrowed to the word type first when it has fewer than 32 bits: claimed for integer seeds only
static SeedSpec seed_for(Ctx& c, const EngInfo& e) {
    SeedSpec s = gen_seed(c, e);
    if (e.integral && e.digits < 31 && s.kind != S_DEFAULT && s.kind != S_VALUE) { s = SeedSpec(); s.kind = S_VALUE; s.value = c.s.special(mask_bits(e.digits)); }
    return s;
}
static void sequence(Ctx& c) {
    const EngInfo& e = pick_engine(c, has_model);
    SeedSpec s = seed_for(c, e);
    EngP p = make_engine(e, s);
    Seeder q = to_seeder(e, s);
    ModelP m(e.model(q, s.kind == S_DEFAULT));
    u64 len = c.s.count(e.hints, e.cost > 10 ? 1500 : 6000); if (c.thorough) len *= 3; len += 2;
    NOTE(c, e.name << " seeded by " << show(s) << ", first " << len << " values");
    bool mod61 = e.family == "mixmax";
    for (u64 i = 0; i < len; ++i) {
        Val a = p->draw(), b = m->next();
        if (mod61 && a == 2305843009213693951.0L) a = 0;   // the two representatives of zero in GF(2^61-1)
        REQUIRE(c, a == b, e.name << " seeded by " << show(s) << ": value " << i << " is " << a << ", the algorithm defines " << b);
    }
    c.label(e.family); c.label(std::string("seed:") + show(s).substr(0, 5));
    c.nontrivial(s.kind != S_DEFAULT || len > e.hints.back());
}
// long positions: far into the sequence, by real stepping of both sides
static void deep(Ctx& c) {
    const EngInfo& e = pick_engine(c, has_model);
    SeedSpec s = seed_for(c, e);
    EngP p = make_engine(e, s); Seeder q = to_seeder(e, s); ModelP m(e.model(q, s.kind == S_DEFAULT));
    u64 skip = c.s.range(10000, c.thorough ? 200000 : 60000) / e.cost;
    NOTE(c, e.name << " seeded by " << show(s) << ", values " << skip << ".." << skip + 200);
    std::vector<Val> v(skip); p->draws(v.data(), skip); for (u64 i = 0; i < skip; ++i) { Val b = m->next(); if (e.family == "mixmax" && v[i] == 2305843009213693951.0L) v[i] = 0; if (v[i] != b) REQUIRE(c, false, e.name << " seeded by " << show(s) << ": value " << i << " is " << v[i] << ", the algorithm defines " << b); }
    c.evals += skip; c.nontrivial();
}
// whole small periods: the orbit from every state returns to its start after the known full period
static void period(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.period != 0; });
    SeedSpec s; s.kind = S_VALUE; s.value = c.s.choose((u64)e.attain_max);
    EngP p = make_engine(e, s), q(p->clone());
    NOTE(c, e.name << " full period from seed " << s.value);
    Val lo = 1e30L, hi = -1e30L;
    for (u64 i = 0; i < e.period; ++i) { Val v = p->draw(); lo = std::min(lo, v); hi = std::max(hi, v); if (i + 1 < e.period && i % (e.period / 8 + 1) == 0) REQUIRE(c, e.family == "additive" || !p->eq(*q), e.name << " returned to its start after " << i + 1 << " of " << e.period << " steps"); }
    REQUIRE(c, p->eq(*q), e.name << " did not return to its start after its period " << e.period);
    REQUIRE(c, lo == e.attain_min && hi == e.attain_max, e.name << " covered [" << lo << "," << hi << "]");
    c.nontrivial();
}
// the engines the C++ standard also defines, against the compiler vendor's implementation
template<class B, class S> static void versus(Ctx& c, const char* name, u64 mask) {
    int mode = (int)c.s.choose(2); u64 v = c.s.special(mask); std::vector<u32> w; std::size_t n = c.s.count({ 624 }, 1000);
    pbt::Prng g(c.s.choose(~0ull)); for (std::size_t i = 0; i < n; ++i) w.push_back((u32)g.next());
    if (v == 0) v = 1; // value 0 means the default seed for some standard engines, by library version
    NOTE(c, name << " vs std::, mode " << mode << " value " << v << " words " << n);
    B b; S s;
    if (mode == 1) { b.seed((typename B::result_type)v); s.seed((typename S::result_type)v); }
    if (mode == 2) { std::seed_seq q1(w.begin(), w.end()), q2(w.begin(), w.end()); b.seed(q1); s.seed(q2); }
    u64 len = c.s.range(10, c.thorough ? 20000 : 5000);
    for (u64 i = 0; i < len; ++i) { u64 x = b(), y = s(); REQUIRE(c, x == y, name << ": value " << i << " is " << x << ", the standard engine gives " << y); }
    c.nontrivial(mode != 0);
}
}
#include <boost/random.hpp>
namespace vf {
static void standard(Ctx& c) {
    switch (c.enumerate(9)) {
    case 0: versus<br::minstd_rand0, std::minstd_rand0>(c, "minstd_rand0", 0xffffffff); break;
    case 1: versus<br::minstd_rand, std::minstd_rand>(c, "minstd_rand", 0xffffffff); break;
    case 2: versus<br::mt19937, std::mt19937>(c, "mt19937", 0xffffffff); break;
    case 3: versus<br::mt19937_64, std::mt19937_64>(c, "mt19937_64", ~0ull); break;
    case 4: versus<br::ranlux24_base, std::ranlux24_base>(c, "ranlux24_base", 0xffffffff); break;
    case 5: versus<br::ranlux48_base, std::ranlux48_base>(c, "ranlux48_base", 0xffffffff); break;
    case 6: versus<br::ranlux24, std::ranlux24>(c, "ranlux24", 0xffffffff); break;
    case 7: versus<br::ranlux48, std::ranlux48>(c, "ranlux48", 0xffffffff); break;
    default: versus<br::knuth_b, std::knuth_b>(c, "knuth_b", 0xffffffff); break;
    }
}
// rand48 against the C library's lrand48
static void libc48(Ctx& c) {
    u32 seed = (u32)c.s.special(0xffffffffu); br::rand48 g(seed);
    unsigned short x[3] = { 0x330E, (unsigned short)seed, (unsigned short)(seed >> 16) };
    u64 len = c.s.range(1, 3000); NOTE(c, "rand48(" << seed << ") vs nrand48, " << len << " values");
    for (u64 i = 0; i < len; ++i) { u64 a = g(), b = (u64)nrand48(x); REQUIRE(c, a == b, "rand48(" << seed << ") value " << i << " is " << a << ", lrand48 gives " << b); }
    c.nontrivial();
}
// MIXMAX streams: the four-identifier constructor
static void mixmax4(Ctx& c) {
    u32 id[4]; for (int i = 0; i < 4; ++i) id[i] = (u32)c.s.special(0xffffffffu);
    br::mixmax g(id[0], id[1], id[2], id[3]); Seeder s; s.kind = Seeder::RANGE; s.words.assign(id, id + 4);
    ModelP m(mixmax_model()(s, false)); u64 len = c.s.range(1, 400);
    NOTE(c, "mixmax(" << id[0] << "," << id[1] << "," << id[2] << "," << id[3] << ") " << len << " values");
    for (u64 i = 0; i < len; ++i) { u64 a = g(); if (a == 2305843009213693951ull) a = 0; u64 b = (u64)m->next(); REQUIRE(c, a == b, "mixmax stream value " << i << " is " << a << ", A^k e0 gives " << b); }
    c.nontrivial();
}
}
namespace pbt { void register_checks() {
    add("sequence", 36000, 150000, vf::sequence);
    add("deep", 3000, 12000, vf::deep);
    add("period", 600, 5000, vf::period);
    add("standard", 1800, 20000, vf::standard);
    add("libc48", 800, 8000, vf::libc48);
    add("mixmax4", 800, 8000, vf::mixmax4);
} }
