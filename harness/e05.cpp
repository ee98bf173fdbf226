// E05: outputs lie in the advertised range, which is constant and tight.
#include "eng.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/additive_combine.hpp>
#include <set>
namespace br = boost::random;
const char* pbt_rule = "a case counts as non-trivial when at least 64 values were checked after a generated history that includes something other than plain draws (skips, block fills, copies, save/restore), or when the orbit or joint cycle of a small engine was walked completely; distinctness is over engine, seed and history";
namespace vf {
static ModelP model_of(const EngInfo& e) { Seeder q; q.value = 1; return ModelP(e.model(q, true)); }
static void inside(Ctx& c, const EngInfo& e, Val v, Val lo, Val hi) {
    if (e.integral) REQUIRE(c, v >= lo && v <= hi, e.name << ": value " << v << " outside [" << lo << "," << hi << "]");
    else REQUIRE(c, v >= lo && v < hi, e.name << ": value " << v << " outside [" << lo << "," << hi << ")");
}
static void history(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    EngP a = gen_engine(c, e, 2000);
    Val lo = a->mn(), hi = a->mx();
    if (e.model) { long double l, h; if (model_of(e)->bounds(l, h)) REQUIRE(c, lo == l && hi == h, e.name << ": advertises [" << lo << "," << hi << "], its definition gives [" << l << "," << h << "]"); }
    REQUIRE(c, lo < hi, e.name << ": empty range");
    u64 rounds = c.s.range(1, 4), tot = 0;
    for (u64 k = 0; k < rounds; ++k) {
        u64 n = c.s.count(e.hints, e.cost > 10 ? 300 : 1500) + 32; tot += n;
        std::vector<Val> v(n); a->draws(v.data(), n);
        Val mnv = v[0], mxv = v[0]; for (Val x : v) { if (!(x >= mnv)) mnv = x; if (!(x <= mxv)) mxv = x; if (x != x) inside(c, e, x, lo, hi); }
        inside(c, e, mnv, lo, hi); inside(c, e, mxv, lo, hi); c.evals += n;
        REQUIRE(c, a->mn() == lo && a->mx() == hi, e.name << ": bounds changed to [" << a->mn() << "," << a->mx() << "] after draws");
        more_history(c, e, a, 1000);
        REQUIRE(c, a->mn() == lo && a->mx() == hi, e.name << ": bounds changed to [" << a->mn() << "," << a->mx() << "]");
        if (c.s.chance(1, 4)) { a->seed(gen_seed(c, e)); REQUIRE(c, a->mn() == lo && a->mx() == hi, e.name << ": bounds changed by seeding"); }
    }
    c.label(e.family); c.nontrivial(tot >= 64);
}
// extreme states: seeds that put extreme words everywhere
static void extreme(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    SeedSpec s; s.kind = e.range_words && c.s.coin() ? S_RANGE_PTR : c.s.coin() ? S_VALUE : S_SEQ;
    u32 fill = c.s.pick(std::vector<u32>({ 0xffffffffu, 0u, 0x80000000u, 0x7fffffffu, 1u, 0xfffffffeu, 0xffffff00u, 0x00ffffffu, 0x55555555u, 0xaaaaaaaau }));
    s.value = c.s.special(mask_bits(e.seed_bits)); if (e.seed_signed && e.seed_bits < 64 && (s.value >> (e.seed_bits - 1))) s.value |= ~mask_bits(e.seed_bits);
    s.words.assign(e.range_words + 1, fill); u64 pert = c.s.choose(3); for (u64 i = 0; i < pert; ++i) s.words[c.s.choose(s.words.size() - 1)] = (u32)c.s.special(0xffffffffu);
    NOTE(c, e.name << " seeded by " << show(s));
    EngP a = make_engine(e, s); Val lo = a->mn(), hi = a->mx(); std::size_t n = std::min<std::size_t>(future_len(e), e.cost > 10 ? 800 : 3000);
    std::vector<Val> v(n); a->draws(v.data(), n);
    for (Val x : v) inside(c, e, x, lo, hi);
    c.label(e.family); c.nontrivial();
}
// both ends are approached as closely as the number of draws makes certain, and in a power-of-two range every bit takes both values
static void reach(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.family != "inversive" && i.cost < 300 && i.name.find("lfsr") == std::string::npos; });
    SeedSpec s; s.kind = S_VALUE; s.value = c.s.choose(mask_bits(std::min(e.seed_bits, 31))); if (c.s.chance(1, 5)) s.kind = S_DEFAULT;
    EngP a = make_engine(e, s); a->discard(future_len(e) * 2);
    const std::size_t n = 6000; std::vector<Val> v(n); a->draws(v.data(), n);
    NOTE(c, e.name << " seeded by " << show(s) << ": " << n << " draws");
    Val lo = a->mn(), hi = a->mx(), w = hi - lo + (e.integral ? 1 : 0), mnv = v[0], mxv = v[0]; for (Val x : v) { mnv = std::min(mnv, x); mxv = std::max(mxv, x); }
    if (e.period && e.period < n) { // small: the exact attained range is known
        REQUIRE(c, mnv == e.attain_min && mxv == e.attain_max && mnv == lo && mxv == hi, e.name << ": a whole period covers [" << mnv << "," << mxv << "], advertised [" << lo << "," << hi << "]");
    } else if (w >= 1000) { // 6000 draws: missing either hundredth has probability 1e-26
        REQUIRE(c, mnv - lo <= w / 100, e.name << " seeded by " << show(s) << ": smallest of " << n << " values is " << mnv << ", advertised minimum " << lo);
        REQUIRE(c, hi - mxv <= w / 100, e.name << " seeded by " << show(s) << ": largest of " << n << " values is " << mxv << ", advertised maximum " << hi);
    }
    c.label(e.family); c.nontrivial();
}
// adaptors over small engines: the joint cycle is walked completely
template<class T> static void walk(Ctx& c, const char* name, T e, u64 steps, bool tight) {
    typedef typename T::result_type R; u64 skip = c.s.choose(1000); e.discard(skip);
    R lo = (e.min)(), hi = (e.max)(), mn = e(), mx = mn; NOTE(c, name << " from position " << skip << ", " << steps << " draws");
    for (u64 i = 0; i < steps; ++i) { R v = e(); REQUIRE(c, v >= lo && v <= hi, name << ": value " << +v << " outside [" << +lo << "," << +hi << "]"); mn = std::min(mn, v); mx = std::max(mx, v); }
    REQUIRE(c, lo == (e.min)() && hi == (e.max)(), name << ": bounds changed");
    if (tight) REQUIRE(c, mn == lo && mx == hi, name << ": the whole cycle covers [" << +mn << "," << +mx << "], advertised [" << +lo << "," << +hi << "]");
    c.label(name); c.nontrivial();
}
typedef br::linear_congruential_engine<uint32_t, 5, 3, 16> L16; typedef br::linear_congruential_engine<uint32_t, 3, 0, 17> L17; typedef br::linear_congruential_engine<uint32_t, 5, 0, 23> L23;
typedef br::linear_congruential_engine<uint32_t, 5, 1, 64> L64; typedef br::linear_congruential_engine<uint16_t, 5, 1, 256> L256;
typedef br::linear_congruential_engine<uint16_t, 5, 7, 0> LU16; typedef br::linear_feedback_shift_engine<uint32_t, 9, 5, 2, 1> F9; typedef br::linear_feedback_shift_engine<uint32_t, 6, 5, 2, 3> F6;
typedef br::linear_congruential_engine<uint64_t, 5, 1, 1024> L1024;
static void small(Ctx& c) {
    u32 a = (u32)c.s.choose(1000), b = (u32)c.s.choose(1000);
#define XC(A, s1, B, s2, T) walk(c, "xor_combine<" #A "," #s1 "," #B "," #s2 ">", br::xor_combine_engine<A, s1, B, s2>(A(a), B(b)), 70000, T)
    switch (c.enumerate(21)) {
    case 0: XC(L16, 0, L17, 0, false); break;      // odd periods: every pair of values occurs
    case 1: XC(L17, 0, L23, 0, false); break;
    case 2: XC(L16, 2, L17, 0, false); break;
    case 3: XC(L17, 3, L23, 1, false); break;
    case 4: XC(F9, 0, L17, 0, false); break;
    case 5: XC(F9, 3, F6, 0, false); break;
    case 6: XC(L1024, 54, L1024, 60, false); break; // shifted out of the word
    case 7: XC(L1024, 3, L64, 0, false); break;
    case 8: XC(L23, 4, L64, 7, false); break;
    case 9: XC(LU16, 0, L256, 0, false); break;
    case 10: XC(L64, 0, L17, 27, false); break;
    case 11: walk(c, "shuffle_order<L64,1>", br::shuffle_order_engine<L64, 1>(L64(a)), 5000, true); break;
    case 12: walk(c, "shuffle_order<L17,7>", br::shuffle_order_engine<L17, 7>(L17(a + 1)), 5000, true); break;
    case 13: walk(c, "shuffle_order<LU16,97>", br::shuffle_order_engine<LU16, 97>(LU16((uint16_t)a)), 900000, false); break;
    case 14: walk(c, "discard_block<L17,5,3>", br::discard_block_engine<L17, 5, 3>(L17(a + 1)), 500, true); break;
    case 15: walk(c, "discard_block<L256,7,7>", br::discard_block_engine<L256, 7, 7>(L256((uint16_t)a)), 3000, true); break;
    case 16: walk(c, "independent_bits<L17,3>", br::independent_bits_engine<L17, 3, uint32_t>(L17(a + 1)), 4000, true); break;
    case 17: walk(c, "independent_bits<L64,6>", br::independent_bits_engine<L64, 6, uint32_t>(L64(a)), 4000, true); break;
    case 18: walk(c, "independent_bits<L256,1>", br::independent_bits_engine<L256, 1, uint16_t>(L256((uint16_t)a)), 4000, true); break;
    case 19: walk(c, "additive_combine<23,19>", br::additive_combine_engine<br::linear_congruential_engine<int32_t, 5, 0, 23>, br::linear_congruential_engine<int32_t, 2, 0, 19> >(a + 1, b + 1), 5000, true); break;
    default: walk(c, "lcg16", LU16((uint16_t)a), 65536, true); break;
    }
}
// xor_combine over full power-of-two bases: the combined range is exactly what the bits allow
static void xor_bits(Ctx& c) {
    u32 a = (u32)c.s.choose(1000), b = (u32)c.s.choose(1000);
#define XT(A, s1, B, s2, LO, HI) do { typedef br::xor_combine_engine<A, s1, B, s2> T; REQUIRE(c, (T::min)() == LO && (T::max)() == HI, "xor_combine<" #A "," #s1 "," #B "," #s2 ">: advertises [" << (T::min)() << "," << (T::max)() << "], exact range is [" << LO << "," << HI << "]"); XC(A, s1, B, s2, false); } while (0)
    switch (c.enumerate(6)) {
    case 0: XT(L16, 0, L64, 0, 0u, 63u); break;
    case 1: XT(L16, 6, L64, 0, 0u, 1023u); break;
    case 2: XT(F9, 0, L16, 5, 0u, 511u); break;
    case 3: XT(L1024, 54, L64, 0, 0u, 18428729675200069695ull); break;
    case 4: XT(L1024, 56, L1024, 0, 0u, 18374686479671624703ull); break;
    default: { // the deprecated spelling
        typedef br::xor_combine<br::taus88, 0, br::taus88, 0> D; D d; REQUIRE(c, (d.min)() == 0u && (d.max)() == 0xffffffffu, "xor_combine<taus88>: advertises [" << (d.min)() << "," << (d.max)() << "]");
        typedef br::xor_combine<L17, 0, L23, 0> D2; D2 e(L17(a + 1), L23(b + 1)); for (int i = 0; i < 400; ++i) { u32 v = e(); REQUIRE(c, v >= (e.min)() && v <= (e.max)(), "xor_combine<L17,0,L23,0>: value " << v << " outside [" << (e.min)() << "," << (e.max)() << "]"); } c.nontrivial(); }
    }
}
}
namespace pbt { void register_checks() {
    add("history", 30000, 250000, vf::history);
    add("extreme", 20000, 150000, vf::extreme);
    add("reach", 6000, 60000, vf::reach);
    add("small", 660, 12000, vf::small);
    add("xor_bits", 180, 3000, vf::xor_bits);
} }
