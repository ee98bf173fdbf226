// Uniform random bit generators under the harness' control: the value at every
// position is a pure function of the script, so copies agree and histories can
// be replayed; extreme values can be placed anywhere.
#ifndef VERIF_SCRIPT_HPP
#define VERIF_SCRIPT_HPP
#include "pbt.hpp"
#include <memory>
#include <iosfwd>
#include <istream>
#include <ostream>
namespace vf {
using pbt::u64; using pbt::i64; using pbt::u128; using pbt::Ctx; using pbt::str;
typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::int32_t i32; typedef std::int16_t i16;
struct Script {
    std::vector<u64> head; u64 tail;   // offsets into the range: the first ones given, the rest pseudo-random
    u64 limit; mutable u64 calls;      // an engine that is called too often reports non-termination
    Script() : tail(1), limit(~0ull), calls(0) {}
    u64 at(u64 pos, u64 maxoff) const {
        if (++calls > limit) pbt::fail("no result after " + str(limit) + " engine calls");
        if (pos < head.size()) { u64 v = head[pos]; return v <= maxoff ? v : maxoff == ~0ull ? v : v % (maxoff + 1); }
        u64 v = pbt::mix(tail + 0x9E3779B97F4A7C15ull * pos); v = pbt::mix(v ^ tail);
        return maxoff == ~0ull ? v : (u64)(((u128)v * ((u128)maxoff + 1)) >> 64);
    }
};
typedef std::shared_ptr<Script> ScriptP;
// extreme and ordinary offsets, runs of the same value included
inline ScriptP gen_script(Ctx& c, u64 maxoff, std::size_t most = 60) {
    ScriptP s(new Script); s->tail = c.s.choose(~0ull);
    std::size_t n = c.s.chance(1, 8) ? 0 : c.s.choose(most), kind = c.s.choose(5);
    while (s->head.size() < n) {
        u64 v; switch (kind) {
        case 0: v = c.s.choose(maxoff); break;
        case 1: v = 0; break;
        case 2: v = maxoff; break;
        case 3: v = c.s.coin() ? maxoff : 0; break;
        default: v = c.s.special(maxoff); break;
        }
        std::size_t rep = c.s.chance(1, 10) ? c.s.choose(6) : 0;
        for (std::size_t i = 0; i <= rep && s->head.size() < n; ++i) s->head.push_back(v);
    }
    return s;
}
// integers in [lo, hi]
template<class T, T lo, T hi> struct SEng {
    typedef T result_type; static const bool has_fixed_range = false;
    static const u64 maxoff = (u64)hi - (u64)lo;
    ScriptP s; u64 pos;
    SEng() : s(new Script), pos(0) {}
    explicit SEng(ScriptP p, u64 at = 0) : s(p), pos(at) {}
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return lo; }
    static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return hi; }
    u64 off() { return s->at(pos++, maxoff); }
    T operator()() { return (T)((u64)lo + off()); }
    void discard(boost::uintmax_t z) { pos += z; }
    void seed() { pos = 0; }
    friend bool operator==(const SEng& a, const SEng& b) { return a.s == b.s && a.pos == b.pos; }
    friend bool operator!=(const SEng& a, const SEng& b) { return !(a == b); }
    template<class C, class Tr> friend std::basic_ostream<C, Tr>& operator<<(std::basic_ostream<C, Tr>& os, const SEng& e) { return os << e.pos; }
    template<class C, class Tr> friend std::basic_istream<C, Tr>& operator>>(std::basic_istream<C, Tr>& is, SEng& e) { return is >> e.pos; }
};
// reals in [0,1) with the given number of bits; offset k is k/2^bits
template<class T, int bits> struct REng {
    typedef T result_type; static const bool has_fixed_range = false;
    static const u64 maxoff = bits == 64 ? ~0ull : (((u64)1 << (bits % 64)) - 1);
    ScriptP s; u64 pos;
    REng() : s(new Script), pos(0) {}
    explicit REng(ScriptP p, u64 at = 0) : s(p), pos(at) {}
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; }
    static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 1; }
    u64 off() { return s->at(pos++, maxoff); }
    T operator()() { return std::ldexp((T)off(), -bits); }
    void seed() { pos = 0; }
    friend bool operator==(const REng& a, const REng& b) { return a.s == b.s && a.pos == b.pos; }
    friend bool operator!=(const REng& a, const REng& b) { return !(a == b); }
};
}
#endif
