// E10: exact modular arithmetic of the congruential engines.
#include "cong.hpp"
#include <boost/random/additive_combine.hpp>
#include "lcg_counts.inc"
namespace br = boost::random;
const char* pbt_rule = "a case counts as non-trivial when at least 20 steps, seed reductions or skips of one parameter set, from states placed at wrap-around points of the product or chosen at random, were compared with 128-bit arithmetic; distinctness is over parameter set and states";
namespace vf {
static CongP get(u64 i, u64 n, bool icg) { CongP p; (void)n; if (!(p = cong0(i, icg)) && !(p = cong1(i, icg)) && !(p = cong2(i, icg))) p = cong3(i, icg); return p; }
static u128 gcd(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
struct M { u128 a, c, m; bool icg; u128 step(u128 x) const { if (icg) { IcgM g(a, c, m); g.x = x; g.next(); return g.x; } return (a % m * x % m + c) % m; } };
// a*x for a,m up to 2^64 fits 128 bits
// states where the product crosses a multiple of the modulus, the word or the half word
static u128 state(Ctx& c, const Cong& g) {
    u128 m = g.m, a = g.a ? g.a : 1, x; u64 d = c.s.choose(6);
    switch (c.s.choose(7)) {
    case 0: x = c.s.choose((u64)(m - 1)); break;
    case 1: x = c.s.special((u64)(m - 1)); break;
    case 2: { u128 q = a * (m - 1) / m; u128 k = q > ~0ull ? c.s.choose(~0ull) : c.s.choose((u64)q); x = (k * m + a - 1) / a; x = x + d >= 3 ? x + d - 3 : 0; break; } // first x past k*m/a
    case 3: { u128 w = (u128)1 << g.bits; x = (w * (1 + c.s.choose((u64)(a - 1 > ~0ull ? ~0ull : a - 1)))) / a; x = x + d >= 3 ? x + d - 3 : 0; break; }
    case 4: { u128 q = m / a ? m / a : 1; u128 k = c.s.choose((u64)((m - 1) / q)); x = k * q; x = x + d >= 3 ? x + d - 3 : 0; break; } // Schrage's digit boundary
    case 5: { x = m / 2; x = x + d >= 3 ? x + d - 3 : 0; break; }
    default: { u128 r = ((u128)1 << (g.bits / 2)); x = r * c.s.choose((u64)(m / r > ~0ull ? ~0ull : m / r)); x = x + d >= 3 ? x + d - 3 : 0; }
    }
    x %= m; if (g.c % m == 0 && x == 0) x = 1; return x;
}
static bool multiplicative(const Cong& g) { return !g.icg && (u128)g.c % g.m == 0; }
static u128 fix(const Cong& g, u128 x) { if (multiplicative(g) && gcd(x, g.m) != 1) { x = 1; } return x; }
static void steps_of(Ctx& c, bool icg) {
    u64 n = icg ? NICG : NLCG; CongP g = get(c.enumerate(n), n, icg); M m = { g->a, g->c, g->m, icg };
    if (multiplicative(*g) && gcd(g->a, g->m) != 1) return;
    u64 lo = (g->c == 0 ? 1 : 0), hi = (u64)(g->m - 1); REQUIRE(c, g->lo() == lo && g->hi() == hi, g->name << ": advertises [" << g->lo() << ", " << g->hi() << "]");
    for (int k = 0; k < 20; ++k) {
        u128 x = fix(*g, state(c, *g)); bool ctor = c.s.coin(); if (ctor) g->construct((u64)x); else g->seed((u64)x);
        int chain = 1 + (int)c.s.choose(3); NOTE(c, g->name << " state " << str(x) << " " << chain << " steps");
        for (int j = 0; j < chain; ++j) {
            u128 y = m.step(x); u64 v = g->next();
            REQUIRE(c, v == (u64)y, g->name << ": from state " << str(x) << " steps to " << v << ", not " << str(y)); x = y;
            REQUIRE(c, v >= lo && v <= hi, g->name << ": value " << v << " outside [" << lo << ", " << hi << "]");
        }
    }
    c.label(icg ? "inversive" : "linear"); c.label(std::string(g->sgn ? "signed " : "unsigned ") + str(g->bits)); c.nontrivial();
}
static void linear(Ctx& c) { steps_of(c, false); }
static void inversive(Ctx& c) { steps_of(c, true); }
// seeds of every size and sign, words from a sequence or a range
static void seeds(Ctx& c) {
    bool icg = c.s.chance(1, 4); u64 n = icg ? NICG : NLCG; CongP g = get(c.enumerate(n), n, icg); M m = { g->a, g->c, g->m, icg };
    if (multiplicative(*g) && gcd(g->a, g->m) != 1) return;
    for (int k = 0; k < 20; ++k) {
        u128 x; int bits = g->bits + g->sgn; u64 kind = g->bits < 31 || (g->sgn && g->bits < 32) ? 0 : c.s.choose(2); // a 32-bit word is not a value of the narrower types
        if (kind == 0) {
            u64 v = c.s.special(bits >= 64 ? ~0ull : ((u64)1 << bits) - 1); if (c.s.chance(1, 3)) { v = (u64)g->m * (1 + c.s.choose(3)) + c.s.choose(4) - 2; if (bits < 64) v &= ((u64)1 << bits) - 1; }
            bool neg = g->sgn && (v >> (bits - 1)); u128 mag = neg ? (bits >= 64 ? (u128)(0 - v) : (u128)(((u64)1 << bits) - v)) : v;
            if (neg && mag == 0) mag = (u128)1 << 63; x = mag % g->m; if (neg && x) x = g->m - x; if (g->c % g->m == 0 && x == 0) x = 1;
            NOTE(c, g->name << " seed " << (neg ? "-" : "") << str(mag)); if (c.s.coin()) g->seed(v); else g->construct(v);
        } else {
            // words least significant first; a sequence's first three words are dropped
            int need = (ceil_log2(g->m) + 31) / 32; if (need < 1) need = 1; std::vector<u32> w; std::size_t len = need + (kind == 1 ? 3 : c.s.choose(2));
            u64 wk = c.s.choose(3); for (std::size_t i = 0; i < len; ++i) w.push_back(wk == 0 ? 0 : wk == 1 ? 0xffffffffu : (u32)c.s.special(0xffffffffu));
            if (c.s.chance(1, 3)) { u128 t = g->m * (1 + c.s.choose(2)) + c.s.choose(4) - 2; for (int j = 0; j < need; ++j) w[(kind == 1 ? 3 : 0) + j] = (u32)(t >> (32 * j)); }
            Seeder s; s.kind = kind == 1 ? Seeder::SEQ : Seeder::RANGE; s.words = w; s.gen = [&](std::size_t q) { return std::vector<mu32>(w.begin(), w.begin() + q); };
            LcgM l(1, g->c, g->m); l.seed(s, false, 1); x = l.x;
            if (kind == 1) { WordSeq q; q.w = w; g->seed_seq(q); NOTE(c, g->name << " seed sequence of " << len << " words"); }
            else { u64 used = g->seed_range(w); REQUIRE(c, used == (u64)need, g->name << ": consumed " << used << " words instead of " << need); NOTE(c, g->name << " range of " << len << " words"); }
        }
        if (multiplicative(*g) && gcd(x, g->m) != 1) continue;
        u128 y = m.step(x); u64 v = g->next(); REQUIRE(c, v == (u64)y, g->name << ": seeded to " << str(x) << " the first value is " << v << ", not " << str(y));
    }
    c.label("seeds"); c.nontrivial();
}
static void affine_pow(const M& m, u64 z, u128& A, u128& C) { u128 a = m.a % m.m, cc = m.c % m.m; A = 1 % m.m; C = 0; for (; z; z >>= 1) { if (z & 1) { C = (a * C % m.m + cc) % m.m; A = A * a % m.m; } cc = (a * cc % m.m + cc) % m.m; a = a * a % m.m; } }
static void skips(Ctx& c) {
    CongP g = get(c.enumerate(NLCG), NLCG, false); M m = { g->a, g->c, g->m, false }; if (multiplicative(*g) && gcd(g->a, g->m) != 1) return;
    for (int k = 0; k < 20; ++k) {
        u128 x = fix(*g, state(c, *g)), A, C; g->seed((u64)x); u64 z = c.s.special(); if (c.s.chance(1, 4)) z = (u64)g->m * (1 + c.s.choose(3)) + c.s.choose(4) - 2;
        NOTE(c, g->name << " state " << str(x) << " discard " << z); affine_pow(m, z, A, C); u128 y = (A * x % m.m + C) % m.m; g->discard(z);
        if (c.s.coin()) { u64 z2 = c.s.special(); NOTE(c, "discard " << z2); affine_pow(m, z2, A, C); y = (A * y % m.m + C) % m.m; g->discard(z2); }
        u128 w = m.step(y); u64 v = g->next(); REQUIRE(c, v == (u64)w, g->name << ": after discard the next value is " << v << ", not " << str(w));
    }
    c.label("discard"); c.nontrivial();
}
// complete cycles of inversive engines over small primes, from every state
static void icg_all(Ctx& c) {
    u64 i = c.enumerate(NICG); CongP g = get(i, NICG, true); if (g->m > 70000) { c.label("(large prime)"); return; } M m = { g->a, g->c, g->m, true };
    std::vector<bool> seen((std::size_t)g->m); u64 lo = g->c ? 0 : 1;
    for (u64 x = lo; x < (u64)g->m; ++x) { g->seed(x); u64 v = g->next(); u128 y = m.step(x); REQUIRE(c, v == (u64)y, g->name << ": from state " << x << " steps to " << v << ", not " << str(y)); REQUIRE(c, !seen[v], g->name << ": two states step to " << v); seen[v] = true; }
    NOTE(c, g->name << ": all states"); c.label("inversive, all states"); c.nontrivial();
}
template<class T, T a1, T m1, T a2, T m2> static void addc(Ctx& c, const char* n) {
    typedef br::linear_congruential_engine<T, a1, 0, m1> A; typedef br::linear_congruential_engine<T, a2, 0, m2> B; br::additive_combine_engine<A, B> e;
    u128 x = 1 + c.s.special((u64)m1 - 2), y = 1 + c.s.special((u64)m2 - 2); e.seed((T)x, (T)y); NOTE(c, n << " states " << str(x) << " " << str(y));
    u64 z = 0; if (c.s.coin()) { z = c.s.special(); M p = { (u128)a1, 0, (u128)m1, false }, q = { (u128)a2, 0, (u128)m2, false }; u128 P, Q, t; affine_pow(p, z, P, t); affine_pow(q, z, Q, t); x = x * P % (u128)m1; y = y * Q % (u128)m2; e.discard(z); NOTE(c, "discard " << z); }
    for (int i = 0; i < 40; ++i) { x = x * (u128)a1 % (u128)m1; y = y * (u128)a2 % (u128)m2; __int128 w = (__int128)x - (__int128)y; if (w < 1) w += (__int128)m1 - 1; u64 v = (u64)e(); REQUIRE(c, v == (u64)w, n << ": value " << i << " is " << v << ", not " << str((u128)w)); }
    c.label("additive"); c.nontrivial();
}
static void additive(Ctx& c) {
    #define AC(T, a1, m1, a2, m2) addc<T, a1, m1, a2, m2>(c, "additive_combine<" #T ": " #a1 " mod " #m1 ", " #a2 " mod " #m2 ">"); break
    switch (c.enumerate(9)) {
    case 0: AC(u32, 40014u, 2147483563u, 40692u, 2147483399u); case 1: AC(i32, 40014, 2147483563, 40692, 2147483399); case 2: AC(u32, 279470273u, 4294967291u, 1588635695u, 4294967279u);
    case 3: AC(u64, 1070922063159934167ull, 18446744073709551557ull, 3935559000370003845ull, 18446744073709551533ull); case 4: AC(i64, 9223372036854775782ll, 9223372036854775783ll, 4611686018427387905ll, 9223372036854775643ll);
    case 5: AC(u64, 40014ull, 4294967311ull, 40692ull, 4294967291ull); case 6: AC(u32, 7u, 101u, 5u, 97u); case 7: AC(i64, 3ll, 7ll, 2ll, 5ll); default: AC(u32, 48271u, 2147483647u, 16807u, 2147483647u);
    }
}
}
namespace pbt { void register_checks() {
    add("linear", 300000, 6000000, vf::linear);
    add("inversive", 100000, 2000000, vf::inversive);
    add("seeds", 150000, 3000000, vf::seeds);
    add("skips", 100000, 2000000, vf::skips);
    add("inversive_all", 132, 132, vf::icg_all);
    add("additive", 60000, 1000000, vf::additive);
} }
