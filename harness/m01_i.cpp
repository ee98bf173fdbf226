// M01: big integers.
#include "m01.hpp"
#include "stat.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <sstream>
namespace vf {
namespace br = boost::random;
typedef mp::cpp_int I;
typedef std::function<I()> Next;
// [rand.adapt.ibits] over offsets in [0, R)
static Next plan(int w, const I& R, Next next) {
    int m = (int)mp::msb(R); int n = (w + m - 1) / m, w0 = 0, n0 = 0; I y0, y1;
    for (int round = 0; round < 2; ++round) { w0 = w / n; n0 = n - w % n; y0 = (R >> w0) << w0; y1 = (R >> (w0 + 1)) << (w0 + 1); if (round == 0) { if (R - y0 <= y0 / n) break; ++n; } }
    return [=]() { I S = 0; for (int k = 0; k < n; ++k) { int b = k < n0 ? w0 : w0 + 1; const I& y = k < n0 ? y0 : y1; I u; do u = next(); while (u >= y); S = (S << b) | (u & ((I(1) << b) - 1)); } return S; };
}
struct Pos { ScriptP s; u64 p; u64 mo; I operator()() { return I(s->at(p++, mo)); } };
template<class G> static std::shared_ptr<Pos> src(const ScriptP& s) { std::shared_ptr<Pos> p(new Pos); p->s = s; p->p = 0; p->mo = G::maxoff; return p; }
template<class E, class G> static void walk(Ctx& c, const char* nm, E e, int w, const ScriptP& s, std::shared_ptr<Pos> at, const Next& next) {
    NOTE(c, nm); typedef typename E::result_type U; REQUIRE(c, (e.min)() == 0, nm << ": min()"); REQUIRE(c, I((e.max)()) == (I(1) << w) - 1, nm << ": max() is " << (e.max)()); std::size_t n = 1 + c.s.choose(4); (void)s;
    for (std::size_t i = 0; i < n; ++i) { if (c.s.chance(1, 5)) { e.discard(1); next(); } I expect = next(), got = I(U(e())); REQUIRE(c, got == expect, nm << ": value " << i << " is " << got << ", expected " << expect); }
    E f(e); REQUIRE(c, f == e, nm << ": a copy is not equal"); std::stringstream t; t << e; I expect = next(), a = I(U(e())); E h(f); t >> h; I b = I(U(f())), d = I(U(h())); (void)d; REQUIRE(c, a == expect && b == expect, nm << ": the next value is " << a << ", of a copy " << b << ", expected " << expect); c.label(nm); c.nontrivial(w > 64); (void)at;
}
template<class G, int w, class U> static void bitsT(Ctx& c, const char* nm) { ScriptP s = gen_script(c, G::maxoff, 40); auto at = src<G>(s); Next n = plan(w, I(G::maxoff) + 1, [at]() { return (*at)(); }); br::independent_bits_engine<G, w, U> e((G(s))); walk<br::independent_bits_engine<G, w, U>, G>(c, nm, e, w, s, at, n); }
typedef SEng<u32, 1u, 2147483646u> A31; typedef SEng<i32, -2147483647 - 1, 2147483647> AI; typedef SEng<u32, 1u, 6u> A6; typedef SEng<u8, 0, 255> A8; typedef SEng<u32, 0u, 1u> A1; typedef SEng<u64, 1u, 2305843009213693951ull> A61; typedef SEng<u32, 0u, 2u> A3;
void m01_bits(Ctx& c) {
    using namespace boost::multiprecision;
    switch (c.enumerate(32)) {
#define B(K, G, w, U) case K: bitsT<G, w, U>(c, "independent_bits<" #G ", " #w ", " #U ">"); break;
    B(0, G0, 65, uint128_t) B(1, G1, 128, uint128_t) B(2, G0, 127, int128_t) B(3, A31, 100, uint128_t) B(4, G1, 256, uint256_t) B(5, A6, 200, uint256_t) B(6, AI, 255, uint256_t) B(7, A61, 256, checked_uint256_t) B(8, A8, 512, uint512_t) B(9, A1, 130, uint256_t) B(10, G0, 1024, uint1024_t) B(11, G1, 1024, int1024_t) B(12, A31, 1024, checked_uint1024_t) B(13, G0, 1000, checked_int1024_t) B(14, G0, 3000, I) B(15, A61, 600, I) B(16, A3, 80, uint128_t) B(17, A6, 1023, uint1024_t) B(18, G0, 544, uint1024_t) B(19, G0, 96, uint128_t) B(20, G0, 480, uint512_t) B(21, A31, 545, uint1024_t) B(22, G1, 576, uint1024_t) B(23, G1, 1000, uint1024_t) B(24, A6, 97, uint128_t) B(25, A8, 120, uint128_t) B(26, A8, 1016, uint1024_t) B(27, G0, 416, uint512_t) B(28, A61, 1024, uint1024_t) B(29, A3, 333, uint512_t)
#undef B
    case 30: { typedef br::independent_bits_engine<G0, 256, uint256_t> In; typedef br::independent_bits_engine<In, 600, uint1024_t> E; ScriptP s = gen_script(c, G0::maxoff, 40); auto at = src<G0>(s); Next n = plan(600, I(1) << 256, plan(256, I(1) << 32, [at]() { return (*at)(); })); walk<E, G0>(c, "independent_bits<independent_bits<G0, 256, uint256_t>, 600, uint1024_t>", E(In(G0(s))), 600, s, at, n); break; }
    default: { typedef br::independent_bits_engine<A31, 100, uint128_t> In; typedef br::discard_block_engine<In, 5, 2> E; ScriptP s = gen_script(c, A31::maxoff, 40); auto at = src<A31>(s); Next b = plan(100, I(A31::maxoff) + 1, [at]() { return (*at)(); }); std::shared_ptr<int> k(new int(0)); Next n = [b, k]() { if (*k == 2) { b(); b(); b(); *k = 0; } ++*k; return b(); }; walk<E, A31>(c, "discard_block<independent_bits<A31, 100, uint128_t>, 5, 2>", E(In(A31(s))), 100, s, at, n); break; } }
}
// an engine whose values are big integers of `words` 64-bit words
template<class U, int words> struct BigEng {
    typedef U result_type; ScriptP s; u64 pos; BigEng(const ScriptP& p, u64 at = 0) : s(p), pos(at) {}
    static U min BOOST_PREVENT_MACRO_SUBSTITUTION () { return U(0); } static U max BOOST_PREVENT_MACRO_SUBSTITUTION () { U r = 0; for (int i = 0; i < words; ++i) r = (U(r << 63) << 1) | U(~0ull); return r; }
    U operator()() { U r = 0; for (int i = 0; i < words; ++i) r = (U(r << 63) << 1) | U(s->at(pos++, ~0ull)); return r; }
};
// the same offsets from an engine of built-in integers and one of big ones: the same values
template<class U> static void offsetsT(Ctx& c, const char* nm) {
    ScriptP s = gen_script(c, ~0ull, 12); s->limit = 100000; int kind = (int)c.s.choose(4); G1 a(s); BigEng<U, 1> b(s); u64 lo = c.s.special(), hi = c.s.special(); if (hi < lo) std::swap(lo, hi); std::ostringstream os; os << nm; std::size_t n = 1 + c.s.choose(5);
    switch (kind) {
    case 0: { os << ", uniform_int<" << nm << ">(" << lo << ", " << hi << ")"; NOTE(c, os.str()); br::uniform_int_distribution<u64> d((lo), (hi)); br::uniform_int_distribution<U> e((U(lo)), (U(hi))); for (std::size_t i = 0; i < n; ++i) { u64 x = d(a); U y = e(b); REQUIRE(c, U(x) == y && a.pos == b.pos, os.str() << ": value " << i << " is " << y << " after " << b.pos << " engine values, of built-in integers " << x << " after " << a.pos); } break; }
    case 1: { hi = lo + c.s.choose(1000); if (hi < lo) hi = lo; os << ", uniform_smallint<" << nm << ">(" << lo << ", " << hi << ")"; NOTE(c, os.str()); br::uniform_smallint<u64> d((lo), (hi)); br::uniform_smallint<U> e((U(lo)), (U(hi))); for (std::size_t i = 0; i < n; ++i) { u64 x = d(a); U y = e(b); REQUIRE(c, U(x) == y && a.pos == b.pos, os.str() << ": value " << i << " is " << y << ", of built-in integers " << x); } break; }
    case 2: { u64 m = 1 + hi / 2; os << ", random_number_generator<" << nm << "> below " << m; NOTE(c, os.str()); br::random_number_generator<G1, u64> d(a); br::random_number_generator<BigEng<U, 1>, U> e(b); for (std::size_t i = 0; i < n; ++i) { u64 x = d(m); U y = e(U(m)); REQUIRE(c, U(x) == y && a.pos == b.pos, os.str() << ": value " << i << " is " << y << ", of built-in integers " << x); } break; }
    case 3: { ld p = (ld)c.s.u01(), q = p + (ld)c.s.logu(1e-3, 1e3); os << ", uniform_real<100 digits>(" << p << ", " << q << ")"; NOTE(c, os.str()); br::uniform_real_distribution<B100> d((B100(p)), (B100(q))); for (std::size_t i = 0; i < n; ++i) { B100 x = d(a), y = d(b); if (a.pos != b.pos) { c.label("the greatest engine value"); break; } REQUIRE(c, y >= B100(p) && y < B100(q) && abs(x - y) <= (B100(q) - B100(p)) * B100(2e-19), os.str() << ": value " << i << " is " << y << ", of built-in integers " << x); } break; }
    default: { ld p = (ld)c.s.u01(); os << ", bernoulli<100 digits>(" << p << ")"; NOTE(c, os.str()); br::bernoulli_distribution<B100> d((B100(p))); for (std::size_t i = 0; i < n; ++i) { bool x = d(a), y = d(b); REQUIRE(c, x == y && a.pos == b.pos, os.str() << ": value " << i << " is " << y << ", of built-in integers " << x); } } }
    c.label(nm); c.nontrivial(n >= 4);
}
void m01_offsets(Ctx& c) { using namespace boost::multiprecision; switch (c.enumerate(4)) { case 0: offsetsT<uint128_t>(c, "uint128_t"); break; case 1: offsetsT<uint256_t>(c, "uint256_t"); break; case 2: offsetsT<uint1024_t>(c, "uint1024_t"); break; default: offsetsT<checked_uint256_t>(c, "checked_uint256_t"); } }
// uniform integers of many words: in range, the first values of the range equally likely at both ends of the number
template<class U, class E> static void uniT(Ctx& c, const char* nm, int maxbits, const std::function<void(E&, const U&, const U&, std::size_t, std::vector<U>&)>& draw, bool sgn) {
    int bits = c.s.chance(1, 4) ? maxbits : (int)c.s.range(2, (u64)maxbits); pbt::Prng p(c.s.choose(~0ull)); I w = 0; int kind = (int)c.s.choose(3); for (int i = 0; i < bits; i += 32) w = (w << 32) | (u32)p.next(); I top = I(1) << (bits - 1); w &= (top << 1) - 1; w |= top; if (kind == 0) w = top; if (kind == 1) w = (top << 1) - 1; if (kind == 2 && w > top / 2) w = top + top / 2; // w + 1 values
    I lo = 0; if (c.s.coin()) lo = I(c.s.choose(1000000)); if (sgn && c.s.coin()) lo -= w / 2; I hi = lo + w; if (mp::msb(hi > 0 ? hi : I(1)) >= (unsigned)maxbits) { lo = 0; hi = w; }
    std::ostringstream os; os << nm << "(" << lo << ", " << hi << ")"; std::string what = os.str(); NOTE(c, what); const std::size_t N = c.thorough ? 20000 : 4000; ScriptP s(new Script); s->tail = c.s.choose(~0ull); s->limit = ~0ull; E e(s); std::vector<U> v; draw(e, U(lo), U(hi), N, v);
    std::size_t cells = 16; std::vector<double> hiC(cells, 0.0), loC(cells, 0.0), eh(cells, 0.0), el(cells, 0.0), pr(16, 0.0); I q = w / cells + 1; std::size_t before = 0; for (std::size_t i = 0; i < N; ++i) { I x(v[i]); REQUIRE(c, x >= lo && x <= hi, what << ": returns " << x); x -= lo; std::size_t a = static_cast<std::size_t>(I(x / q)), b = static_cast<std::size_t>(I(x % cells)); ++hiC[a]; ++loC[b]; if (i % 2) ++pr[before / 4 * 4 + a / 4]; before = a; }
    for (std::size_t i = 0; i < cells; ++i) { I a = q * i, b = a + q; if (a > w + 1) a = w + 1; if (b > w + 1) b = w + 1; I k = (w + 1) / cells + (I((w + 1) % cells) > i ? 1 : 0); ld W = static_cast<ld>(I(w + 1)); eh[i] = (double)(static_cast<ld>(I(b - a)) / W * N); el[i] = (double)(static_cast<ld>(k) / W * N); }
    double z = chi2z(hiC, eh, 20); REQUIRE(c, z < 7.5, what << ": parts of the range are not equally likely, z = " << z); z = chi2z(loC, el, 20); REQUIRE(c, z < 7.5, what << ": residues are not equally likely, z = " << z); c.label(nm); c.nontrivial(bits > 64);
}
template<class U, class E> static void uni(Ctx& c, const char* nm, int bits, bool sgn = false) { uniT<U, E>(c, nm, bits, [](E& e, const U& lo, const U& hi, std::size_t n, std::vector<U>& v) { br::uniform_int_distribution<U> d(lo, hi); typename br::uniform_int_distribution<U>::param_type p(lo, hi); br::uniform_int_distribution<U> o; for (std::size_t i = 0; i < n; ++i) v.push_back(i % 2 ? U(d(e)) : U(o(e, p))); }, sgn); }
void m01_uniform(Ctx& c) {
    using namespace boost::multiprecision;
    switch (c.enumerate(12)) { case 8: uni<checked_uint128_t, A31>(c, "uniform_int<checked_uint128_t> over a [1, 2^31-2] engine", 128); break; case 9: uni<checked_uint256_t, A6>(c, "uniform_int<checked_uint256_t> over a [1, 6] engine", 256); break; case 10: uni<checked_uint512_t, A61>(c, "uniform_int<checked_uint512_t> over a [1, 2^61-1] engine", 512); break; case 0: uni<I, G0>(c, "uniform_int<cpp_int> over a u32 engine", 700, true); break; case 1: uni<I, BigEng<uint256_t, 4> >(c, "uniform_int<cpp_int> over a 256-bit engine", 700, true); break; case 2: uni<uint512_t, BigEng<uint128_t, 2> >(c, "uniform_int<uint512_t> over a 128-bit engine", 512); break; case 3: uni<uint256_t, BigEng<uint256_t, 4> >(c, "uniform_int<uint256_t> over a 256-bit engine", 256); break; case 4: uni<uint1024_t, A31>(c, "uniform_int<uint1024_t> over a [1, 2^31-2] engine", 1024); break; case 5: uni<uint128_t, G1>(c, "uniform_int<uint128_t> over a u64 engine", 128); break; case 6: uni<checked_uint1024_t, BigEng<checked_uint1024_t, 16> >(c, "uniform_int<checked_uint1024_t> over a 1024-bit engine", 1024); break; case 7: uni<uint256_t, A6>(c, "uniform_int<uint256_t> over a [1, 6] engine", 256); break;
    default: uniT<I, G0>(c, "random_number_generator<cpp_int>", 700, [](G0& e, const I& lo, const I& hi, std::size_t n, std::vector<I>& v) { br::random_number_generator<G0, I> g(e); for (std::size_t i = 0; i < n; ++i) v.push_back(lo + g(I(hi - lo + 1))); }, false); }
}
}
