// M01: engines of big reals.
#include "m01.hpp"
#include "model.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/generate_canonical.hpp>
#include <sstream>
namespace vf {
namespace br = boost::random;
typedef mp::cpp_int I;
// words of w bits, in the order in which they are given
struct BigModel {
    int w; std::size_t r, s, i; bool swc; std::vector<I> x; int carry; std::size_t block, used, n; I M;
    BigModel() : i(0), carry(0), block(0), used(0), n(0) {}
    void start(const std::vector<u32>& v) { M = I(1) << w; std::size_t k = (w + 31) / 32; x.assign(r, 0); for (std::size_t j = 0; j < r; ++j) { for (std::size_t t = k; t-- > 0;) x[j] = (x[j] << 32) | v[j * k + t]; x[j] %= M; } i = 0; n = 0; carry = swc && x[r - 1] == 0; }
    I raw() { std::size_t k = (i + r - s) % r; if (swc) { I d = x[k] - x[i] - carry; carry = d < 0; if (carry) d += M; x[i] = d; } else x[i] = (x[i] + x[k]) % M; I v = x[i]; i = (i + 1) % r; return v; }
    I next() { if (block) { if (n == used) { for (std::size_t j = used; j < block; ++j) raw(); n = 0; } ++n; } return raw(); }
};
struct Seq { std::vector<u32> v; template<class It> void generate(It a, It b) { for (std::size_t i = 0; a != b; ++i) *a++ = v[i]; } };
template<class E, class R> static void engT(Ctx& c, const char* nm, BigModel m) {
    std::size_t k = (m.w + 31) / 32, need = k * m.r; pbt::Prng g(c.s.choose(~0ull)); int fill = (int)c.s.choose(4); std::vector<u32> words(need + c.s.choose(3));
    for (u32& x : words) x = fill == 0 ? (u32)g.next() : fill == 1 ? 0xffffffffu : fill == 2 ? 0 : fill == 3 ? (g.next() & 1 ? 0xffffffffu : 0) : (u32)(g.next() & 3);
    if (fill == 2) words[g.below(need)] = 1u << g.below(32);
    bool seq = c.s.coin(); std::ostringstream os; os << nm << " from " << (seq ? "a sequence" : "a range") << " of kind " << fill; std::string w = os.str(); NOTE(c, w); m.start(words);
    typedef std::vector<u32>::iterator It; It f = words.begin(); Seq sq; sq.v = words; int how = (int)c.s.choose(1); std::unique_ptr<E> e;
    if (seq) { if (how) e.reset(new E(sq)); else { e.reset(new E()); for (u64 q = c.s.choose(3); q-- > 0;) (*e)(); e->seed(sq); } } else { if (how) e.reset(new E(f, words.end())); else { e.reset(new E()); for (u64 q = c.s.choose(3); q-- > 0;) (*e)(); e->seed(f, words.end()); } REQUIRE(c, (std::size_t)(f - words.begin()) == need, w << ": reads " << (f - words.begin()) << " words, " << need << " needed"); }
    { std::vector<u32> few(words.begin(), words.begin() + (std::ptrdiff_t)g.below(need)); It a = few.begin(); bool threw = false; try { E t(a, few.end()); } catch (std::invalid_argument&) { threw = true; } REQUIRE(c, threw, w << ": " << few.size() << " words are accepted"); }
    R scale = mp::ldexp(R(1), -m.w); std::size_t total = 0, steps = 3 + c.s.choose(6);
    auto check = [&](E& x, BigModel& y, std::size_t n, const char* what) { for (std::size_t i = 0; i < n; ++i) { R v = x(), expect = R(y.next()) * scale; REQUIRE(c, v >= 0 && v < 1, w << ": returns " << v); REQUIRE(c, v == expect, w << ": value " << total << " " << what << " is " << std::setprecision(110) << v << ", expected " << expect); ++total; } };
    REQUIRE(c, (e->min)() == 0 && (e->max)() == 1, w << ": bounds"); NOTE(c, steps << " steps");
    for (std::size_t t = 0; t < steps; ++t) switch (c.s.choose(4)) {
    case 0: check(*e, m, 1 + c.s.choose(6), ""); break;
    case 1: check(*e, m, 1 + c.s.choose(2 * m.r + 5), ""); break;
    case 2: { u64 z = c.s.choose(c.s.coin() ? 8 : 3 * m.r); e->discard(z); for (u64 q = 0; q < z; ++q) m.next(); break; }
    case 3: { // text
        std::stringstream s; s.precision(c.s.coin() ? std::numeric_limits<R>::digits10 + 3 : std::numeric_limits<R>::max_digits10); s << *e; std::unique_ptr<E> o(new E()); for (u64 q = c.s.choose(2); q-- > 0;) (*o)(); s >> *o; REQUIRE(c, !s.fail(), w << ": the text is not read"); REQUIRE(c, *o == *e && !(*o != *e), w << ": the restored engine is not equal"); BigModel y = m; check(*o, y, 1 + c.s.choose(m.r), "after restoring"); break; }
    default: { E o(*e); REQUIRE(c, o == *e, w << ": a copy is not equal"); BigModel y = m; check(o, y, 1 + c.s.choose(4), "of a copy"); REQUIRE(c, o != *e || fill == 2 || fill == 1, w << ": equal to one that is ahead"); break; } }
    check(*e, m, 2, "at the end"); c.label(nm); c.nontrivial(total > 0);
}
static BigModel mod(int w, std::size_t r, std::size_t s, bool swc, std::size_t block = 0, std::size_t used = 0) { BigModel m; m.w = w; m.r = r; m.s = s; m.swc = swc; m.block = block; m.used = used; return m; }
typedef br::lagged_fibonacci_01_engine<B100, 200, 55, 24> LA; typedef br::lagged_fibonacci_01_engine<B100, 333, 17, 5> LB; typedef br::lagged_fibonacci_01_engine<SL, 63, 55, 24> LC; typedef br::lagged_fibonacci_01_engine<SD, 52, 10, 3> LD; typedef br::lagged_fibonacci_01_engine<B100, 96, 31, 13> LE;
typedef br::subtract_with_carry_01_engine<B100, 48, 10, 24> SA; typedef br::subtract_with_carry_01_engine<B100, 160, 5, 17> SB; typedef br::subtract_with_carry_01_engine<SL, 64, 5, 12> SC; typedef br::subtract_with_carry_01_engine<B100, 301, 3, 7> SE;
void m01_engines(Ctx& c) {
    switch (c.enumerate(12)) {
    case 0: engT<LA, B100>(c, "lagged_fibonacci_01<100 digits, 200 bits, 55, 24>", mod(200, 55, 24, false)); break; case 1: engT<LB, B100>(c, "lagged_fibonacci_01<100 digits, 333 bits, 17, 5>", mod(333, 17, 5, false)); break; case 2: engT<LC, SL>(c, "lagged_fibonacci_01<64-bit software, 63 bits, 55, 24>", mod(63, 55, 24, false)); break; case 3: engT<LD, SD>(c, "lagged_fibonacci_01<53-bit software, 52 bits, 10, 3>", mod(52, 10, 3, false)); break; case 4: engT<LE, B100>(c, "lagged_fibonacci_01<100 digits, 96 bits, 31, 13>", mod(96, 31, 13, false)); break;
    case 5: engT<SA, B100>(c, "subtract_with_carry_01<100 digits, 48 bits, 10, 24>", mod(48, 24, 10, true)); break; case 6: engT<SB, B100>(c, "subtract_with_carry_01<100 digits, 160 bits, 5, 17>", mod(160, 17, 5, true)); break; case 7: engT<SC, SL>(c, "subtract_with_carry_01<64-bit software, 64 bits, 5, 12>", mod(64, 12, 5, true)); break; case 8: engT<SE, B100>(c, "subtract_with_carry_01<100 digits, 301 bits, 3, 7>", mod(301, 7, 3, true)); break;
    case 9: engT<br::discard_block_engine<SA, 389, 24>, B100>(c, "discard_block<subtract_with_carry_01<100 digits, 48 bits, 10, 24>, 389, 24>", mod(48, 24, 10, true, 389, 24)); break; case 10: engT<br::discard_block_engine<LB, 7, 3>, B100>(c, "discard_block<lagged_fibonacci_01<100 digits, 333 bits, 17, 5>, 7, 3>", mod(333, 17, 5, false, 7, 3)); break; default: engT<br::discard_block_engine<SE, 5, 5>, B100>(c, "discard_block<subtract_with_carry_01<100 digits, 301 bits, 3, 7>, 5, 5>", mod(301, 7, 3, true, 5, 5)); break;
    }
}
// the engine of built-in reals with the same parameters returns the same numbers, whatever it is seeded with
template<class B, class S> static void twinT(Ctx& c, const char* nm) {
    int how = (int)c.s.choose(2); u32 v = (u32)c.s.special(0xffffffffu); std::ostringstream os; os << nm << (how == 0 ? " by default" : how == 1 ? " from " : " from a generator of ") << v; std::string w = os.str(); NOTE(c, w); std::unique_ptr<B> b; std::unique_ptr<S> s;
    if (how == 0) { b.reset(new B); s.reset(new S); } else if (how == 1) { b.reset(new B(v)); s.reset(new S(v)); if (c.s.coin()) { (*b)(); (*s)(); v ^= 5; b->seed(v); s->seed(v); } } else { Seq q; pbt::Prng g(v); for (int i = 0; i < 200; ++i) q.v.push_back((u32)g.next()); b.reset(new B(q)); s.reset(new S(q)); }
    std::size_t n = 1 + c.s.choose(200); for (std::size_t i = 0; i < n; ++i) { ld x = (ld)(*b)(), y = (ld)(*s)(); REQUIRE(c, x == y, w << ": value " << i << " is " << y << ", of a built-in type " << x); }
    std::ostringstream t, u; t << std::setprecision(30) << *b; u << std::setprecision(30) << *s; std::istringstream ti(t.str()), ui(u.str()); for (long double p, q; (ti >> p) && (ui >> q);) REQUIRE(c, p == q, w << ": the text has " << q << ", of a built-in type " << p); std::istringstream back(t.str()); back >> *s; REQUIRE(c, !back.fail(), w << ": the text of the built-in one is not read"); for (int i = 0; i < 5; ++i) { ld x = (ld)(*b)(), y = (ld)(*s)(); REQUIRE(c, x == y, w << ": value " << i << " after reading the text of the built-in one is " << y << ", not " << x); }
    c.label(nm); c.nontrivial(n > 4);
}
void m01_twins(Ctx& c) {
    switch (c.enumerate(5)) {
    case 0: twinT<br::lagged_fibonacci_01_engine<double, 48, 55, 24>, br::lagged_fibonacci_01_engine<B100, 48, 55, 24> >(c, "lagged_fibonacci_01<100 digits, 48 bits, 55, 24>"); break; case 1: twinT<br::lagged_fibonacci_01_engine<ld, 63, 17, 5>, br::lagged_fibonacci_01_engine<B100, 63, 17, 5> >(c, "lagged_fibonacci_01<100 digits, 63 bits, 17, 5>"); break;
    case 2: twinT<br::subtract_with_carry_01_engine<double, 48, 10, 24>, SA>(c, "subtract_with_carry_01<100 digits, 48 bits, 10, 24>"); break; case 3: twinT<br::subtract_with_carry_01_engine<ld, 64, 5, 12>, SC>(c, "subtract_with_carry_01<64-bit software, 64 bits, 5, 12>"); break; default: twinT<br::discard_block_engine<br::subtract_with_carry_01_engine<double, 48, 5, 12>, 20, 7>, br::discard_block_engine<br::subtract_with_carry_01_engine<SD, 48, 5, 12>, 20, 7> >(c, "discard_block<subtract_with_carry_01<53-bit software, 48 bits, 5, 12>, 20, 7>"); break;
    }
}
// generate_canonical: all bits of as many values as are needed, and below one
template<class G> static void canonT(Ctx& c, const char* nm) {
    const int eb = G::maxoff == ~0ull ? 64 : 32; ScriptP s = gen_script(c, G::maxoff, 14); G g(s); const int bits[] = { 1, 32, 64, 100, 200, 333, 334 }; int b = (int)c.s.choose(6); std::ostringstream os; os << "generate_canonical<100 digits, " << bits[b] << "> over " << nm; std::string w = os.str(); NOTE(c, w); B100 r;
    switch (b) { case 0: r = br::generate_canonical<B100, 1>(g); break; case 1: r = br::generate_canonical<B100, 32>(g); break; case 2: r = br::generate_canonical<B100, 64>(g); break; case 3: r = br::generate_canonical<B100, 100>(g); break; case 4: r = br::generate_canonical<B100, 200>(g); break; case 5: r = br::generate_canonical<B100, 333>(g); break; default: r = br::generate_canonical<B100, 334>(g); }
    int digits = std::min(bits[b], (int)std::numeric_limits<B100>::digits); u64 need = std::max(1, (digits + eb - 1) / eb); REQUIRE(c, g.pos == need, w << ": uses " << g.pos << " engine values, " << need << " expected"); I S = 0; for (u64 i = need; i-- > 0;) S = (S << eb) | s->at(i, G::maxoff); B100 x = B100(S) * mp::ldexp(B100(1), -(int)(eb * need)), d = r > x ? r - x : x - r;
    REQUIRE(c, r >= 0 && r < 1, w << ": returns " << std::setprecision(110) << r); REQUIRE(c, d <= std::numeric_limits<B100>::epsilon() * 8, w << ": returns " << std::setprecision(110) << r << ", expected " << x); c.label(nm); c.nontrivial();
}
void m01_canonical(Ctx& c) { if (c.enumerate(2)) canonT<G1>(c, "u64 engine"); else canonT<G0>(c, "u32 engine"); }
}
