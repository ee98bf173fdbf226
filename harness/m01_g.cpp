// M01: distributions over engines of software floats draw what they draw over the same engines of built-in reals.
#include "m01.hpp"
#include <boost/random.hpp>
#include <boost/random/generate_canonical.hpp>
namespace vf {
namespace br = boost::random;
template<class D, class B, class S> static void pair(Ctx& c, const std::string& w, B& b, S& s, D d) {
    NOTE(c, w); std::size_t n = 2 + c.s.choose(14); D e(d); for (std::size_t i = 0; i < n; ++i) { typename D::result_type x = d(b), y = e(s); REQUIRE(c, x == y, w << ": value " << i << " is " << y << ", over the built-in engine " << x); }
    B b1(b); S s1(s); ld x = (ld)b1(), y = (ld)s1(); REQUIRE(c, x == y, w << ": the engine continues with " << y << ", the built-in one with " << x); c.nontrivial(n >= 4);
}
template<class T> static br::uniform_int_distribution<T> any_int(Ctx& c, std::ostringstream& o) { T lo = (T)c.s.special(), hi = (T)c.s.special(); if (c.s.coin()) hi = (T)(lo + (T)c.s.choose(100)); if (hi < lo) std::swap(lo, hi); o << "(" << +lo << ", " << +hi << ")"; return br::uniform_int_distribution<T>(lo, hi); }
template<class T> struct Canon { typedef T result_type; template<class E> T operator()(E& e) { return br::generate_canonical<T, std::numeric_limits<T>::digits>(e); } };
template<class B, class S> static void baseT(Ctx& c, const char* nm) {
    u32 v = (u32)c.s.special(0xffffffffu); B b(v); S s(v); u64 z = c.s.choose(40); b.discard(z); s.discard(z); std::ostringstream o; o << nm << " from " << v << " after " << z << ", "; o.precision(18); int k = (int)c.s.choose(11); c.label(nm);
    switch (k) {
    case 0: { o << "uniform_int<int>"; br::uniform_int_distribution<int> d = any_int<int>(c, o); pair(c, o.str(), b, s, d); break; }
    case 1: { o << "uniform_int<u64>"; br::uniform_int_distribution<u64> d = any_int<u64>(c, o); pair(c, o.str(), b, s, d); break; }
    case 2: { o << "uniform_int<signed char>"; br::uniform_int_distribution<signed char> d = any_int<signed char>(c, o); pair(c, o.str(), b, s, d); break; }
    case 3: { int lo = (int)c.s.range(-1000, 1000), hi = lo + (int)c.s.choose(5000); o << "uniform_smallint<int>(" << lo << ", " << hi << ")"; pair(c, o.str(), b, s, br::uniform_smallint<int>(lo, hi)); break; }
    case 4: { double lo = c.s.u01() * 100 - 50, hi = lo + c.s.logu(1e-6, 1e6); o << "uniform_real<double>(" << lo << ", " << hi << ")"; pair(c, o.str(), b, s, br::uniform_real_distribution<double>(lo, hi)); break; }
    case 5: { double p = c.s.u01(); o << "bernoulli(" << p << ")"; pair(c, o.str(), b, s, br::bernoulli_distribution<double>(p)); break; }
    case 6: { o << "uniform_01<float>"; pair(c, o.str(), b, s, br::uniform_01<float>()); break; }
    case 7: { o << "normal<double>"; pair(c, o.str(), b, s, br::normal_distribution<double>(1, 2)); break; }
    case 8: { o << "exponential<float>"; pair(c, o.str(), b, s, br::exponential_distribution<float>(3)); break; }
    case 9: { o << "discrete<int, double>"; std::vector<double> q(2 + c.s.choose(6)); for (double& x : q) x = (double)(1 + c.s.choose(20)); pair(c, o.str(), b, s, br::discrete_distribution<int, double>(q)); break; }
    case 10: { o << "generate_canonical<double>"; pair(c, o.str(), b, s, Canon<double>()); break; }
    default: { o << "geometric"; double p = (1 + (double)c.s.choose(98)) / 100; pair(c, o.str(), b, s, br::geometric_distribution<int, double>(p)); } }
}
void m01_realbase(Ctx& c) {
    switch (c.enumerate(5)) {
    case 0: baseT<br::lagged_fibonacci_01_engine<double, 48, 55, 24>, br::lagged_fibonacci_01_engine<B100, 48, 55, 24> >(c, "lagged_fibonacci_01<100 digits, 48 bits, 55, 24>"); break;
    case 1: baseT<br::lagged_fibonacci_01_engine<ld, 63, 17, 5>, br::lagged_fibonacci_01_engine<B100, 63, 17, 5> >(c, "lagged_fibonacci_01<100 digits, 63 bits, 17, 5>"); break;
    case 2: baseT<br::subtract_with_carry_01_engine<double, 48, 10, 24>, br::subtract_with_carry_01_engine<SL, 48, 10, 24> >(c, "subtract_with_carry_01<64-bit software, 48 bits, 10, 24>"); break;
    case 3: baseT<br::subtract_with_carry_01_engine<ld, 64, 5, 12>, br::subtract_with_carry_01_engine<B100, 64, 5, 12> >(c, "subtract_with_carry_01<100 digits, 64 bits, 5, 12>"); break;
    default: baseT<br::discard_block_engine<br::subtract_with_carry_01_engine<double, 24, 10, 24>, 223, 24>, br::discard_block_engine<br::subtract_with_carry_01_engine<SD, 24, 10, 24>, 223, 24> >(c, "ranlux of 53-bit software floats"); break;
    }
}
}
