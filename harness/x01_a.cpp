// Adaptors and bundles over an engine that throws (X01).
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "script.hpp"
#include <boost/random.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/generate_canonical.hpp>
namespace vf {
namespace br = boost::random; typedef long double ld;
typedef SEng<u32, 0, 0xffffffffu> A; typedef SEng<u16, 3, 1000> B; typedef SEng<pbt::u64, 0, ~0ull> W; typedef SEng<u32, 1, 2147483646u> M;
template<class E> struct Mk { static E make(const ScriptP& s) { return E(s); } };
template<class E, std::size_t p, std::size_t r> struct Mk<br::discard_block_engine<E, p, r> > { static br::discard_block_engine<E, p, r> make(const ScriptP& s) { E e(s); return br::discard_block_engine<E, p, r>(e); } };
static bool in(ld v, ld lo, ld hi, bool real) { return v >= lo && (real ? v < hi : v <= hi); }
template<class D, class Make, class Draw> static void check(Ctx& c, const std::string& name, const ScriptP& s, ld lo, ld hi, bool real, Make make, Draw draw) {
    std::size_t n = 1 + c.s.choose(5), most = c.s.coin() ? 3 : 60; pbt::u64 extra = c.s.choose(most); NOTE(c, name);
    D d = make(); D same = make(); std::size_t before = c.s.choose(5); for (std::size_t i = 0; i < before; ++i) { draw(d); draw(same); }
    pbt::u64 used = s->calls; s->limit = used + extra; std::string w = name + " over an engine that throws " + str(extra) + " calls after " + str(before) + " values"; bool thrown = false; std::vector<ld> got;
    for (int i = 0; i < 200 && !thrown; ++i) try { got.push_back(draw(d)); } catch (const pbt::Failure& f) { thrown = true; REQUIRE(c, std::string(f.what()) == "no result after " + str(s->limit) + " engine calls", w << ": another exception comes out: " << f.what()); REQUIRE(c, s->calls == s->limit + 1, w << ": calls the engine again after it threw"); }
    s->limit = ~0ull; REQUIRE(c, thrown, w << ": the exception is lost"); for (std::size_t i = 0; i < got.size(); ++i) { REQUIRE(c, in(got[i], lo, hi, real), w << ": value " << i << " is " << got[i]); ld v = draw(same); REQUIRE(c, v == got[i], w << ": value " << i << " is " << got[i] << ", not " << v); }
    D copy(d); for (std::size_t i = 0; i < n; ++i) { ld v = draw(d); REQUIRE(c, in(v, lo, hi, real), w << ": afterwards value " << i << " is " << v << ", outside [" << lo << ", " << hi << "]"); ld u = draw(copy); REQUIRE(c, u == v, w << ": afterwards a copy returns " << u << ", not " << v); }
    d = make(); D fresh = make(); for (std::size_t i = 0; i < n + 20; ++i) { ld v = draw(d), u = draw(fresh); REQUIRE(c, u == v, w << ": assigned afterwards, value " << i << " is " << v << ", not " << u); }
    c.label(name); c.nontrivial();
}
template<class E, class Bs> static void engine(Ctx& c, const char* name, const ScriptP& s) {
    check<E>(c, name, s, (ld)(E::min)(), (ld)(E::max)(), false, [&]() { const Bs b(Mk<Bs>::make(s)); return E(b); }, [](E& e) { return (ld)e(); });
}
template<class E, class B1, class B2> static void engine2(Ctx& c, const char* name, const ScriptP& s) {
    check<E>(c, name, s, (ld)(E::min)(), (ld)(E::max)(), false, [&]() { B1 b(s); B2 d(s, 7); return E(b, d); }, [](E& e) { return (ld)e(); });
}
template<class E, class D> static void bundle(Ctx& c, const char* name, const ScriptP& s, const D& d, bool real, bool open = false) {
    typedef boost::variate_generator<E, D> V; ld big = std::numeric_limits<ld>::infinity(); check<V>(c, name, s, open ? -big : (ld)(d.min)(), open ? big : (ld)(d.max)(), real && !open, [&]() { return V(E(s), d); }, [](V& v) { return (ld)v(); });
}
void x01_adaptors(Ctx& c) {
    int k = (int)c.s.choose(17); ScriptP s = gen_script(c, 0xffffffffu, 30);
    switch (k) {
    case 0: engine<br::discard_block_engine<A, 7, 3>, A>(c, "discard_block<7, 3>", s); break;
    case 1: engine<br::discard_block_engine<B, 5, 5>, B>(c, "discard_block<5, 5>", s); break;
    case 2: engine<br::shuffle_order_engine<A, 5>, A>(c, "shuffle_order<5>", s); break;
    case 3: engine<br::shuffle_order_engine<B, 98>, B>(c, "shuffle_order<98>", s); break;
    case 4: engine<br::independent_bits_engine<A, 53, pbt::u64>, A>(c, "independent_bits<53>", s); break;
    case 5: engine<br::independent_bits_engine<B, 13, u32>, B>(c, "independent_bits<13>", s); break;
    case 6: engine<br::independent_bits_engine<M, 64, pbt::u64>, M>(c, "independent_bits<64>", s); break;
    case 7: engine2<br::xor_combine_engine<A, 0, W, 3>, A, W>(c, "xor_combine", s); break;
    case 8: engine<br::shuffle_order_engine<br::discard_block_engine<A, 4, 3>, 6>, br::discard_block_engine<A, 4, 3> >(c, "shuffle_order over discard_block", s); break;
    case 9: bundle<A>(c, "bundle with uniform_int", s, br::uniform_int_distribution<int>((int)c.s.choose(10), (int)(10 + c.s.choose(1000000000))), false); break;
    case 10: bundle<B>(c, "bundle with uniform_int from a small engine", s, br::uniform_int_distribution<pbt::u64>(c.s.choose(10), 10 + c.s.choose(~0ull - 10)), false); break;
    case 11: bundle<M>(c, "bundle with uniform_real", s, br::uniform_real_distribution<double>(-1, 1), true); break;
    case 12: bundle<W>(c, "bundle with normal", s, br::normal_distribution<double>(0, 1), true, true); break;
    case 13: bundle<A>(c, "bundle with gamma", s, br::gamma_distribution<double>(0.5 + c.s.choose(3)), true, true); break;
    case 14: bundle<A>(c, "bundle with binomial", s, br::binomial_distribution<int>((int)c.s.choose(100), 0.3), false); break;
    case 15: { typedef br::random_number_generator<A, int> R; int n = 2 + (int)c.s.choose(1000); struct H { std::shared_ptr<A> a; std::shared_ptr<R> r; H(const ScriptP& s) : a(new A(s)), r(new R(*a)) {} H(const H& o) : a(new A(*o.a)), r(new R(*a)) {} H& operator=(const H& o) { *a = *o.a; return *this; } }; check<H>(c, "random_number_generator", s, 0, n - 1, false, [&]() { return H(s); }, [n](H& h) { return (ld)(*h.r)(n); }); break; }
    case 16: { int bits = (int)c.s.choose(2); check<A>(c, "generate_canonical", s, 0, 1, true, [&]() { return A(s); }, [bits](A& a) { return bits == 0 ? (ld)br::generate_canonical<double, 53>(a) : bits == 1 ? (ld)br::generate_canonical<float, 10>(a) : (ld)br::generate_canonical<long double, 64>(a); }); break; }
    default: { typedef boost::uniform_01<A> U; check<U>(c, "uniform_01 over an engine", s, 0, 1, true, [&]() { return U(A(s)); }, [](U& u) { return (ld)u(); }); }
    }
}
}
