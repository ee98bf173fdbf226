// E08: engine adaptors over arbitrary base engines.
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "adapt.hpp"
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <sstream>
namespace br = boost::random;
const char* pbt_rule = "a case counts as non-trivial when an adaptor over a scripted base engine produced at least 8 values compared with its defining function, interleaved with at least one skip, copy or save/restore, base engine state included; distinctness is over adaptor, base range, script and history";
namespace vf {
void run(Ctx& c, const std::string& name, Dut& d, Ref& r) {
    s128 lo, hi; if (r.bounds(lo, hi)) REQUIRE(c, d.lo() == lo && d.hi() == hi, name << ": advertises [" << (long double)d.lo() << ", " << (long double)d.hi() << "] instead of [" << (long double)lo << ", " << (long double)hi << "]");
    u64 ops = 8 + c.s.choose(30), i = 0; bool mixed = false;
    for (u64 k = 0; k < ops; ++k) switch (c.s.choose(7)) {
    case 0: { u64 z = c.s.count({ 1, 2, 3, 7, 10 }, 50); NOTE(c, "discard " << z); d.discard(z); for (u64 j = 0; j < z; ++j) r.next(); i += z; mixed = true; break; }
    case 1: if (c.s.coin()) { NOTE(c, "copy"); d.recopy(); mixed = true; } else { NOTE(c, "save and restore"); d.save(); mixed = true; } break;
    default: { u64 n = 1 + c.s.choose(6); NOTE(c, "draw " << n);
        for (u64 j = 0; j < n; ++j, ++i) {
            s128 want = r.next(), got = d.draw();
            REQUIRE(c, got == want, name << ": value " << i << " is " << (long double)got << ", expected " << (long double)want);
            REQUIRE(c, got >= d.lo() && got <= d.hi(), name << ": value " << i << " = " << (long double)got << " is outside [min, max]");
            REQUIRE(c, d.pos() == r.used(), name << ": after value " << i << " the base engine is at position " << d.pos() << " instead of " << r.used());
        } }
    }
    REQUIRE(c, d.pos() == r.used(), name << ": in the end the base engine is at position " << d.pos() << " instead of " << r.used());
    c.label(name.substr(0, name.find('<'))); if (i >= 8 && mixed) c.nontrivial();
}
void head(Ctx& c, const std::string& n, const ScriptP& s) { NOTE(c, n << " over a base engine that starts"); if (c.verbose) for (std::size_t i = 0; i < s->head.size() && i < 40; ++i) c.text << " +" << s->head[i]; if (c.verbose) c.text << "; "; }
static const u64 NB = 33;
static void adaptors(Ctx& c) {
    u64 pair = c.enumerate(NB * NKINDS); u64 bi = pair / NKINDS; int kind = (int)(pair % NKINDS);
    typedef bool (*F)(Ctx&, u64, int); static const F f[] = { shard0, shard1, shard2, shard3 }; f[bi % 4](c, bi, kind);
}
// adaptors of adaptors
template<class E, class R> static void nest(Ctx& c, const char* n, const E& e, R& r) {
    // base() of the outer adaptor is the inner adaptor; only outputs are compared here
    u64 N = 20 + c.s.choose(60); E f(e);
    for (u64 i = 0; i < N; ++i) { s128 w = r.next(), g = (s128)f(); REQUIRE(c, g == w, n << ": value " << i << " is " << (long double)g << ", expected " << (long double)w); }
    REQUIRE(c, f.base().base().pos == r.used(), n << ": the innermost base engine is at position " << f.base().base().pos << " instead of " << r.used());
    c.label(n); c.nontrivial();
}
template<class In> struct DbOver : Ref { In b; std::size_t P, R, n; DbOver(const In& b_, std::size_t p, std::size_t r) : b(b_), P(p), R(r), n(0) {} s128 next() { if (n == R) { for (std::size_t i = R; i < P; ++i) b.next(); n = 0; } ++n; return b.next(); } u64 used() const { return b.used(); } bool bounds(s128&, s128&) const { return false; } };
template<class In> struct IbOver : Ref { In b; s128 lo; BitsPlan q; IbOver(const In& b_, int w, s128 l, u128 R) : b(b_), lo(l), q(bits_plan(w, R)) {} s128 next() { return (s128)bits_draw(q, [this]() { return (u128)(b.next() - lo); }); } u64 used() const { return b.used(); } bool bounds(s128&, s128&) const { return false; } };
template<class In> struct ShOver : Ref { In b; std::vector<s128> v; s128 y, lo; u128 R; ShOver(const In& b_, std::size_t k, s128 l, u128 R_) : b(b_), lo(l), R(R_) { for (std::size_t i = 0; i < k; ++i) v.push_back(b.next()); y = b.next(); } s128 next() { u128 j = (u128)(y - lo) * v.size() / R; y = v[(std::size_t)j]; v[(std::size_t)j] = b.next(); return y; } u64 used() const { return b.used(); } bool bounds(s128&, s128&) const { return false; } };
static void nested(Ctx& c) {
    typedef SEng<u32, 1u, 2147483646u> A; typedef SEng<u64, 0u, 0xffffffffffffffffull> L; typedef SEng<i64, -1000000, 5000000000ll> S;
    switch (c.enumerate(6)) {
    case 0: { ScriptP s = gen_script(c, A::maxoff); typedef br::discard_block_engine<br::shuffle_order_engine<A, 9>, 5, 2> E; DbOver<ShRef> r(ShRef(src<A>(s, 0), 9), 5, 2); nest(c, "discard_block<shuffle_order<i>>", E(br::shuffle_order_engine<A, 9>(A(s))), r); break; }
    case 1: { ScriptP s = gen_script(c, A::maxoff); typedef br::independent_bits_engine<br::discard_block_engine<A, 4, 3>, 32, u32> E; DbRef d; d.b = src<A>(s, 0); d.p0 = 4; d.r0 = 3; d.n = 0; IbOver<DbRef> r(d, 32, 1, 2147483646u); nest(c, "independent_bits<discard_block<i>>", E(br::discard_block_engine<A, 4, 3>(A(s))), r); break; }
    case 2: { ScriptP s = gen_script(c, L::maxoff); typedef br::shuffle_order_engine<br::independent_bits_engine<L, 20, u32>, 33> E; ShOver<IbRef> r(IbRef(src<L>(s, 0), 20), 33, 0, 1u << 20); nest(c, "shuffle_order<independent_bits<L>>", E(br::independent_bits_engine<L, 20, u32>(L(s))), r); break; }
    case 3: { ScriptP s = gen_script(c, S::maxoff); typedef br::independent_bits_engine<br::shuffle_order_engine<S, 50>, 47, u64> E; IbOver<ShRef> r(ShRef(src<S>(s, 0), 50), 47, -1000000, 5001000001ull); nest(c, "independent_bits<shuffle_order<S>>", E(br::shuffle_order_engine<S, 50>(S(s))), r); break; }
    case 4: { ScriptP s = gen_script(c, L::maxoff); typedef br::discard_block_engine<br::independent_bits_engine<L, 64, u64>, 3, 1> E; DbOver<IbRef> r(IbRef(src<L>(s, 0), 64), 3, 1); nest(c, "discard_block<independent_bits<L>>", E(br::independent_bits_engine<L, 64, u64>(L(s))), r); break; }
    default: { ScriptP s = gen_script(c, S::maxoff); typedef br::shuffle_order_engine<br::discard_block_engine<S, 6, 5>, 17> E; DbRef d; d.b = src<S>(s, 0); d.p0 = 6; d.r0 = 5; d.n = 0; ShOver<DbRef> r(d, 17, -1000000, 5001000001ull); nest(c, "shuffle_order<discard_block<S>>", E(br::discard_block_engine<S, 6, 5>(S(s))), r); }
    }
}
// xor combination
template<class A, int s1, class B, int s2> static void xr(Ctx& c, const char* n) {
    ScriptP s = gen_script(c, A::maxoff), t = gen_script(c, B::maxoff); u64 pa = c.s.choose(3), pb = c.s.choose(3); head(c, n, s);
    typedef br::xor_combine_engine<A, s1, B, s2> E; typedef typename A::result_type T; E e(A(s, pa), B(t, pb)); const int w = std::numeric_limits<T>::digits; u64 N = 10 + c.s.choose(40), i = 0; Src0 x = src<A>(s, pa), y = src<B>(t, pb); bool mixed = false;
    REQUIRE(c, (E::min)() == 0, n << ": min() is " << (u64)(E::min)());
    while (i < N) {
        if (c.s.chance(1, 8)) { u64 z = c.s.choose(9); NOTE(c, "discard " << z); e.discard(z); x.p += z; y.p += z; i += z; mixed = true; }
        if (c.s.chance(1, 10)) { std::ostringstream o; o << e; E f(A(s, 77), B(t, 78)); std::istringstream in(o.str()); in >> f; REQUIRE(c, in && f == e, n << ": read back from \"" << o.str() << "\" differs"); e = f; mixed = true; }
        u64 want = mlow(((u64)x() << s1) ^ ((u64)y() << s2), w); T got = e();
        REQUIRE(c, got == want, n << ": value " << i << " is " << (u64)got << ", expected " << want);
        REQUIRE(c, got <= (E::max)(), n << ": value " << (u64)got << " above max()");
        REQUIRE(c, e.base1().pos == x.p && e.base2().pos == y.p, n << ": base engines at " << e.base1().pos << " and " << e.base2().pos << " instead of " << x.p << " and " << y.p); ++i;
    }
    { E f(A(s, x.p), B(t, y.p)); REQUIRE(c, f == e && !(f != e), n << ": not equal to an engine built from its bases"); E g(A(s, x.p), B(t, y.p + 1)); REQUIRE(c, g != e && !(g == e), n << ": equal although the second bases differ"); }
    c.label("xor_combine"); if (mixed) c.nontrivial();
}
static void xors(Ctx& c) {
    typedef SEng<u32, 0u, 0xffffffffu> F; typedef SEng<u32, 1u, 2147483646u> M; typedef SEng<u64, 0u, ~0ull> L; typedef SEng<u64, 3u, 12884901890ull> K; typedef SEng<u32, 0u, 255u> C8; typedef SEng<u64, 0u, 0xffffffffu> L32;
    #define XR(A, a, B, b) xr<A, a, B, b>(c, "xor_combine<" #A "," #a "," #B "," #b ">"); break
    switch (c.enumerate(12)) {
    case 0: XR(F, 0, F, 0); case 1: XR(F, 0, M, 0); case 2: XR(M, 3, F, 1); case 3: XR(F, 31, F, 0); case 4: XR(L, 0, L, 0); case 5: XR(L, 13, K, 29); case 6: XR(C8, 0, C8, 8); case 7: XR(C8, 24, C8, 3);
    case 8: XR(L32, 0, L32, 32); case 9: XR(L32, 32, L32, 16); case 10: XR(K, 0, L, 63); default: XR(L, 1, L, 0);
    }
}
// additive combination; the two scripts are handed over through the constructors' seeds
static thread_local ScriptP add_s, add_t;
template<class T, T m, int which> struct Mul {
    typedef T result_type; static const T modulus = m; static const bool has_fixed_range = false; u64 pos; Mul() : pos(0) {} explicit Mul(T p) : pos(p) {}
    void seed() { pos = 0; } void seed(T p) { pos = p; } void discard(boost::uintmax_t z) { pos += z; }
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 1; } static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return m - 1; }
    u64 value() { return (which ? add_t : add_s)->at(pos++, (u64)m - 2) + 1; }
    T operator()() { return (T)value(); }
    friend bool operator==(const Mul& a, const Mul& b) { return a.pos == b.pos; }
    template<class C, class Tr> friend std::basic_ostream<C, Tr>& operator<<(std::basic_ostream<C, Tr>& os, const Mul& e) { return os << e.pos; }
    template<class C, class Tr> friend std::basic_istream<C, Tr>& operator>>(std::basic_istream<C, Tr>& is, Mul& e) { return is >> e.pos; }
};
template<class T, T m, class T2, T2 m2> static void ad(Ctx& c, const char* n) {
    add_s = gen_script(c, (u64)m - 2); add_t = gen_script(c, (u64)m2 - 2); typedef Mul<T, m, 0> A; typedef Mul<T2, m2, 1> B; typedef br::additive_combine_engine<A, B> E;
    T pa = (T)c.s.choose(3); T2 pb = (T2)c.s.choose(3); E e(pa, pb); A x(pa); B y(pb); u64 N = 10 + c.s.choose(40), i = 0; head(c, n, add_s); bool mixed = false;
    REQUIRE(c, (E::min)() == 1 && (E::max)() == m - 1, n << ": advertises [" << (u64)(E::min)() << ", " << (u64)(E::max)() << "]");
    while (i < N) {
        if (c.s.chance(1, 8)) { u64 z = c.s.choose(9); NOTE(c, "discard " << z); e.discard(z); x.discard(z); y.discard(z); i += z; mixed = true; }
        if (c.s.chance(1, 10)) { std::ostringstream o; o << e; E f(T(33), T2(44)); std::istringstream in(o.str()); in >> f; REQUIRE(c, in && f == e, n << ": read back from \"" << o.str() << "\" differs"); e = f; mixed = true; }
        if (c.s.chance(1, 20)) { e.seed(T(5), T2(2)); x.seed(5); y.seed(2); NOTE(c, "seed(5,2)"); }
        s128 z = (s128)x.value() - (s128)y.value(), mm = (s128)m - 1; z %= mm; if (z <= 0) z += mm; T got = e();
        REQUIRE(c, (s128)got == z, n << ": value " << i << " is " << (long double)(s128)got << ", expected " << (long double)z); ++i;
    }
    c.label("additive_combine"); if (mixed) c.nontrivial();
}
static void adds(Ctx& c) {
    #define AD(T, m, T2, m2) ad<T, m, T2, m2>(c, "additive_combine<" #T " mod " #m "," #T2 " mod " #m2 ">"); break
    switch (c.enumerate(9)) {
    case 0: AD(u32, 2147483563u, u32, 2147483399u); case 1: AD(u32, 101u, u32, 97u); case 2: AD(u32, 4294967291u, u32, 4294967279u); case 3: AD(u64, 18446744073709551557ull, u64, 18446744073709551533ull);
    case 4: AD(u64, 101ull, u64, 101ull); case 5: AD(i32, 2147483563, i32, 2147483399); case 6: AD(i64, 9223372036854775783ll, i64, 3ll); case 7: AD(u64, 9223372036854775783ull, u32, 4294967291u); default: AD(u32, 7u, u32, 5u);
    }
}
}
namespace pbt { void register_checks() {
    add("adaptors", 800000, 8000000, vf::adaptors);
    add("nested", 50000, 500000, vf::nested);
    add("xor", 50000, 500000, vf::xors);
    add("additive", 50000, 500000, vf::adds);
} }
