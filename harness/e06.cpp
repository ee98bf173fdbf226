// E06: seeding routes.
#include "eng.hpp"
#include <set>
const char* pbt_rule = "a case counts as non-trivial when two different seeding routes (construction against seeding of a used engine, another argument type, another kind of sequence or iterator, a longer or a too short range) were compared on generated seed data; distinctness is over engine, seed data, routes and the history of the re-seeded engine";
namespace vf {
static std::size_t flen(Ctx& c, const EngInfo& e) { return c.s.chance(1, 6) ? future_len(e) : std::min<std::size_t>(future_len(e), 500); }
static void same(Ctx& c, const EngInfo& e, IEng& a, IEng& b, const std::string& what) {
    REQUIRE(c, a.eq(b) && b.eq(a) && !a.ne(b), what << ": engines are not equal");
    EngP x(a.clone()), y(b.clone()); same_future(c, e, *x, *y, flen(c, e), what);
}
// construction = seeding a used engine
static void construct(Ctx& c) {
    const EngInfo& e = pick_engine(c); SeedSpec s = gen_seed(c, e), t = s;
    EngP a = make_engine(e, s), d = gen_engine(c, e, 1200); NOTE(c, e.name << " by " << show(s));
    d->seed(t);
    REQUIRE(c, s.consumed == t.consumed && s.requests == t.requests, e.name << ": construction and seed() by " << show(s) << " use different amounts of seed data");
    same(c, e, *a, *d, e.name + " constructed and seeded by " + show(s));
    EngP k(a->clone_nc()); same(c, e, *a, *k, e.name + " copied from a non-const lvalue");
    c.label(e.family); c.nontrivial();
}
// the same integer through every arithmetic type, const or not
static void types(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    SeedSpec s; s.kind = S_VALUE; int ty = (int)c.s.choose(6);
    static const u64 lim[] = { 32767, 0x7fffffff, 0xffffffffu, 0x7fffffffffffffffull, ~0ull, 255, 1ull << 53 };
    u64 m = std::min(lim[ty], mask_bits(e.seed_bits - (e.seed_signed ? 1 : 0)));
    s.value = c.s.special(m); s.value_type = (int)c.s.choose(1);
    bool neg = e.seed_signed && ty != 2 && ty != 4 && ty != 5 && s.value && c.s.coin(); if (neg) s.value = 0 - s.value;
    NOTE(c, e.name << " seed " << (i64)s.value << " as type " << ty);
    EngP a = make_engine(e, s), d = gen_engine(c, e, 300), g(d->make_typed(s.value, ty));
    d->seed_typed(s.value, ty);
    same(c, e, *a, *d, e.name + " seeded with " + str((i64)s.value) + " passed as another type (" + str(ty) + ")");
    same(c, e, *a, *g, e.name + " constructed with " + str((i64)s.value) + " passed as another type (" + str(ty) + ")");
    c.label(e.family); c.nontrivial();
}
// ranges: exact consumption, nothing after the used part matters, all iterator kinds agree, too short throws
static void ranges(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.range_words != 0; });
    const std::size_t n = e.range_words;
    SeedSpec s; do s = gen_seed(c, e); while (s.kind != S_RANGE_PTR && s.kind != S_RANGE_LIST && s.kind != S_RANGE_INPUT && (s.kind = S_RANGE_PTR, s.words.size() != n || true) && s.words.size() < n && (s.words.resize(n, (u32)c.s.special(0xffffffffu)), false));
    while (s.words.size() < n) s.words.push_back((u32)c.s.special(0xffffffffu));
    static const SeedKind k[] = { S_RANGE_PTR, S_RANGE_LIST, S_RANGE_INPUT }; s.kind = k[c.s.choose(2)];
    NOTE(c, e.name << " by " << show(s));
    EngP a = make_engine(e, s); REQUIRE(c, !s.thrown, e.name << ": a range of " << s.words.size() << " words was rejected, " << n << " are needed");
    REQUIRE(c, s.consumed == n, e.name << ": " << s.consumed << " elements consumed, the state needs " << n);
    SeedSpec t = s; t.kind = k[c.s.choose(2)]; t.words.resize(n + c.s.choose(5)); for (std::size_t i = n; i < t.words.size(); ++i) t.words[i] = (u32)c.s.choose(0xffffffffu);
    EngP d = gen_engine(c, e, 600); d->seed(t);
    REQUIRE(c, !t.thrown && t.consumed == n, e.name << ": " << t.consumed << " elements consumed of " << t.words.size() << ", the state needs " << n);
    same(c, e, *a, *d, e.name + " from equal words through " + show(s) + " and " + show(t));
    // every shorter range is rejected, and the engine can still be seeded and used
    SeedSpec q = s; q.kind = k[c.s.choose(2)]; std::size_t cut = c.s.coin() ? n - 1 : c.s.choose(n - 1); q.words.resize(cut);
    d->seed(q); REQUIRE(c, q.thrown == 1, e.name << ": seeding from " << cut << " words, " << n << " are needed, did not throw std::invalid_argument");
    REQUIRE(c, q.consumed <= cut, e.name << ": consumed past the end");
    SeedSpec r = q; EngP z; z.reset(e.make(r)); REQUIRE(c, r.thrown == 1 && !z, e.name << ": construction from " << cut << " words, " << n << " are needed, did not throw std::invalid_argument");
    for (int i = 0; i < 3; ++i) d->draw();
    EngP d2(d->clone()); REQUIRE(c, d2->eq(*d), e.name << ": not copyable after a rejected seed range");
    SeedSpec u = gen_seed(c, e); d->seed(u); EngP f = make_engine(e, u);
    same(c, e, *d, *f, e.name + " seeded by " + show(u) + " after a rejected range");
    c.label(e.family); c.nontrivial();
}
// what the engine asks of a seed sequence determines it: the same words through any sequence type
static void sequences(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    SeedSpec s; s.kind = S_STD_SEQ; u64 n = c.s.count({ 7, 39, 68, 623 }, 300); for (u64 i = 0; i < n; ++i) s.words.push_back((u32)c.s.special(0xffffffffu));
    SeedSpec b = s; b.kind = S_BOOST_SEQ; SeedSpec probe; probe.kind = S_SEQ; probe.words.assign(1, 1);
    EngP x = make_engine(e, probe);
    SeedSpec v; v.kind = S_SEQ; std::seed_seq q(s.words.begin(), s.words.end());
    for (std::size_t m : probe.requests) { std::vector<u32> w(m); q.generate(w.begin(), w.end()); v.words.insert(v.words.end(), w.begin(), w.end()); }
    NOTE(c, e.name << " by seed sequences of " << n << " words");
    EngP a = make_engine(e, s), d = gen_engine(c, e, 400), f = make_engine(e, b); d->seed(v);
    REQUIRE(c, v.requests == probe.requests, e.name << ": the amount asked of the seed sequence depends on its contents");
    same(c, e, *a, *d, e.name + " from std::seed_seq and from a sequence yielding the same words");
    same(c, e, *a, *f, e.name + " from std::seed_seq and boost::random::seed_seq of equal words");
    c.label(e.family); c.nontrivial();
}
static void defaults(Ctx& c) {
    const EngInfo& e = pick_engine(c); SeedSpec s; EngP a = make_engine(e, s), d = gen_engine(c, e, 2000); d->seed(s);
    NOTE(c, e.name << " default");
    same(c, e, *a, *d, e.name + " default-constructed and re-seeded by default");
    EngP b = make_engine(e, s); same(c, e, *a, *b, e.name + " default-constructed twice");
    c.label(e.family); c.nontrivial();
}
// seeds chosen to produce forbidden states: the output must not be constant or leave the range
static void valid_state(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.family != "lf" && i.family != "lf01" && i.name.find("lf01") == std::string::npos && i.name.find("mult_full") == std::string::npos; });
    SeedSpec s; u64 how = c.s.choose(3);
    u64 modulus = e.integral ? (u64)EngP(make_engine(e, SeedSpec()))->mx() + 1 : 0;
    u64 tgt = modulus ? (c.s.coin() ? modulus : modulus * c.s.choose(8)) : c.s.special(); if (c.s.coin()) tgt += modulus >> 1 ? c.s.choose(3) * modulus : 0;
    if (how == 0) { s.kind = S_VALUE; s.value = tgt & mask_bits(e.seed_bits); if (e.seed_signed) { s.value &= mask_bits(e.seed_bits - 1); if (s.value && c.s.coin()) s.value = 0 - s.value; } }
    else if (how == 1 && e.range_words) { s.kind = S_RANGE_PTR; for (std::size_t i = 0; i < e.range_words; ++i) s.words.push_back(e.range_words > 4 ? 0 : (u32)(tgt >> (32 * (i % 2)))); }
    else { s.kind = S_SEQ; std::size_t n = e.range_words + 3; bool lead = c.s.coin(); for (std::size_t i = 0; i < n; ++i) s.words.push_back(i < 3 && lead ? (u32)c.s.choose(0xffffffffu) : e.range_words > 4 ? 0 : (u32)(tgt >> (32 * ((i + 1) % 2)))); }
    // words that vanish only after masking: redundant or unused bits set
    if (!s.words.empty() && e.range_words > 4 && c.s.coin()) { u32 m = (u32)c.s.special(0xffffffffu); s.words[0] = m; }
    NOTE(c, e.name << " by " << show(s));
    EngP a = make_engine(e, s); Val lo = a->mn(), hi = a->mx(); std::size_t n = std::min<std::size_t>(3 * future_len(e) + 8, 6000); if (e.cost > 50) n = 300;
    std::vector<Val> v(n); a->draws(v.data(), n); bool varies = false; std::set<Val> seen;
    for (std::size_t i = 0; i < n; ++i) { if (v[i] != v[0]) varies = true; REQUIRE(c, v[i] >= lo && (e.integral ? v[i] <= hi : v[i] < hi), e.name << ": value " << v[i] << " out of range after seeding by " << show(s)); }
    REQUIRE(c, varies, e.name << ": " << n << " equal values after seeding by " << show(s));
    c.label(e.family); c.nontrivial();
}
}
namespace pbt { void register_checks() {
    add("construct", 14000, 200000, vf::construct);
    add("types", 12000, 150000, vf::types);
    add("ranges", 10000, 150000, vf::ranges);
    add("sequences", 8000, 100000, vf::sequences);
    add("defaults", 900, 9000, vf::defaults);
    add("valid_state", 8000, 100000, vf::valid_state);
} }
