// E02: discard(n) is n calls.
#include "eng.hpp"
#include <boost/random/mersenne_twister.hpp>
const char* pbt_rule = "a case counts as non-trivial when the engine was left in the middle of its history and at least two steps were skipped, or a skip longer than 2^20 was compared with an exact oracle; distinctness is over engine, seed, history, counts and their order";
namespace vf {
static u64 step_cap(const EngInfo& e) { return e.cost > 10 ? 1500 : 20000; }
static void discard_draws(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    EngP a = gen_engine(c, e), b(a->clone());
    u64 z = c.s.count(e.hints, step_cap(e));
    NOTE(c, "discard(" << z << ")");
    a->discard(z);
    for (u64 i = 0; i < z; ++i) b->draw();
    REQUIRE(c, a->eq(*b), e.name << ": discard(" << z << ") and " << z << " calls leave unequal engines");
    same_future(c, e, *a, *b, c.s.chance(1, 4) ? future_len(e) : std::min<std::size_t>(future_len(e), 700), e.name + ": after discard(" + str(z) + ") against as many calls");
    c.label(e.family); c.nontrivial(z >= 2);
}
// any mixture of skips, draws and block fills; the twin replaces every skip by calls
static void mixed(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    EngP a = gen_engine(c, e, 800), b(a->clone());
    u64 ops = c.s.range(1, 12), cap = step_cap(e) / 6, tot = 0;
    for (u64 k = 0; k < ops; ++k) {
        u64 op = c.s.choose(4);
        if (op <= 1) { u64 z = c.s.count(e.hints, cap); NOTE(c, "discard " << z); a->discard(z); for (u64 i = 0; i < z; ++i) b->draw(); tot += z; }
        else if (op == 2) { u64 n = c.s.choose(5); NOTE(c, "draw " << n); for (u64 i = 0; i < n; ++i) { Val x = a->draw(), y = b->draw(); REQUIRE(c, x == y, e.name << ": values after mixed skips differ: " << x << " vs " << y); } }
        else if (op == 3) { std::vector<u32> u(1 + c.s.choose(40)), v(u.size()); NOTE(c, "fill " << u.size()); a->gen32(u.data(), u.data() + u.size()); b->gen32(v.data(), v.data() + v.size()); REQUIRE(c, u == v, e.name << ": block fills after mixed skips differ"); }
        else { u64 z = c.s.count(e.hints, cap), y = z ? c.s.choose(z) : 0; NOTE(c, "split " << y << "+" << z - y << " against " << z); a->discard(y); a->discard(z - y); b->discard(z); tot += z; }
    }
    REQUIRE(c, a->eq(*b), e.name << ": engines unequal after equivalent skips");
    same_future(c, e, *a, *b, std::min<std::size_t>(future_len(e), 700), e.name + ": after mixed skips");
    c.label(e.family); c.nontrivial(tot >= 2 && ops > 1);
}
static u64 huge_count(Ctx& c, const EngInfo& e) {
    switch (c.s.choose(3)) {
    case 0: return c.s.special();
    case 1: return e.period ? e.period * c.s.range(1, 1000) + c.s.choose(5) : c.s.special();
    case 2: { u64 v = c.s.special(); return v < ((u64)1 << 40) ? v + ((u64)1 << 40) : v; }
    default: return c.s.choose(~0ull);
    }
}
// closed-form skips of any length against 128-bit affine exponentiation
static void huge_exact(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.log_discard && i.model && (i.family == "lcg" || i.family == "additive"); });
    SeedSpec s; s.kind = S_VALUE; s.value = c.s.special(mask_bits(e.seed_signed ? e.seed_bits - 1 : e.seed_bits));
    EngP a = make_engine(e, s);
    Seeder q; q.value = s.value; ModelP m(e.model(q, false));
    u64 parts = c.s.range(1, 3);
    NOTE(c, e.name << " seed " << s.value);
    for (u64 k = 0; k < parts; ++k) {
        u64 z = huge_count(c, e); NOTE(c, "discard " << z);
        a->discard(z); if (!m->jump(z)) pbt::fail("harness: no jump for " + e.name);
        for (int i = 0; i < 4; ++i) { EngP t(a->clone()); ModelP mt(m->clone()); for (int j = 0; j <= i; ++j) { Val x = t->draw(), y = mt->next(); REQUIRE(c, x == y, e.name << " seeded with " << s.value << ": value " << j << " after discard(" << z << ") is " << x << ", the exact recurrence gives " << y); } }
        c.nontrivial(z >= ((u64)1 << 20));
    }
    c.label(e.name);
}
// polynomial jumps: composition of huge skips, and skips next to the threshold against calls
static void huge_compose(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.log_discard; });
    EngP a = gen_engine(c, e, 300), b(a->clone());
    u64 z = huge_count(c, e), y = c.s.coin() ? c.s.choose(z) : c.s.count(e.hints, 3000); if (y > z) y = z;
    u64 tail = std::min<u64>(z - y, c.s.coin() ? c.s.choose(18) : c.s.count(e.hints, 500));
    NOTE(c, "discard(" << z << ") against discard(" << y << "), discard(" << z - y - tail << ") and " << tail << " calls");
    a->discard(z); b->discard(y); b->discard(z - y - tail); for (u64 i = 0; i < tail; ++i) b->draw();
    REQUIRE(c, a->eq(*b), e.name << ": discard(" << z << ") differs from the same skip made in parts " << y << ", " << z - y - tail << ", " << tail);
    same_future(c, e, *a, *b, future_len(e), e.name + ": after a composed skip");
    c.label(e.family); c.nontrivial(z >= ((u64)1 << 20));
}
// the real Mersenne twisters beyond the documented jump threshold of ten million
template<class E> static void real_mt(Ctx& c, const char* name) {
    E a(static_cast<typename E::result_type>(c.s.special(0xffffffffu))); u64 pre = c.s.count({ E::state_size, E::shift_size, 2 * E::state_size }, 3000);
    for (u64 i = 0; i < pre; ++i) a();
    u64 z = 10000000 + c.s.count({ 1, 624, 1000 }, 400000) + 1;
    NOTE(c, name << " after " << pre << " draws: discard(" << z << ") against as many calls");
    E b(a); a.discard(z); for (u64 i = 0; i < z; ++i) b();
    REQUIRE(c, a == b, name << " after " << pre << " draws: discard(" << z << ") and as many calls give unequal engines");
    for (std::size_t i = 0; i < 2 * E::state_size; ++i) { u64 x = a(), y = b(); REQUIRE(c, x == y, name << " after " << pre << " draws and discard(" << z << "): value " << i << " is " << x << " instead of " << y); }
    c.nontrivial(); c.label(name);
}
static void big_mt(Ctx& c) {
    switch (c.enumerate(3)) {
    case 0: real_mt<boost::random::mt11213b>(c, "mt11213b"); break;
    case 1: real_mt<boost::random::mt19937_64>(c, "mt19937_64"); break;
    default: real_mt<boost::random::mt19937>(c, "mt19937"); break;
    }
}
}
namespace pbt { void register_checks() {
    add("big_mt", 8, 60, vf::big_mt);
    add("discard_draws", 60000, 300000, vf::discard_draws);
    add("mixed", 40000, 200000, vf::mixed);
    add("huge_exact", 20000, 300000, vf::huge_exact);
    add("huge_compose", 4000, 20000, vf::huge_compose);
} }
