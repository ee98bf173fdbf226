#include "v01.hpp"
#include <boost/random/normal_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
namespace vf { namespace br = boost::random;
struct Normal : Full<br::normal_distribution<> > { static const char* n() { return "normal"; } static D make(Ctx& c) { return D(c.s.irange(-5, 5), c.s.choose(9) * 0.5); } };
struct Expo : Full<br::exponential_distribution<float> > { static const char* n() { return "exponential<float>"; } static D make(Ctx& c) { return D((float)(1 + c.s.choose(20)) / 4); } };
struct UInt_ : Full<br::uniform_int_distribution<> > { static const char* n() { return "uniform_int_distribution"; } static D make(Ctx& c) { int lo = (int)c.s.irange(-2147483647 - 1, 2147483647); int hi = c.s.coin() ? lo : (int)c.s.irange(lo, 2147483647); if (lo < 2147483000 && c.s.coin()) hi = lo + (int)c.s.choose(600); return D(lo, hi); } };
// the legacy class: the value given is the size of the range
struct Legacy { typedef boost::uniform_int<> D; static const char* n() { return "uniform_int"; } static D make(Ctx& c) { int lo = (int)c.s.irange(-1000, 1000); return D(lo, lo + (int)c.s.choose(c.s.coin() ? 5 : 1000000)); }
    static void param(D& a, D& b, const D& d) { a.param(d.param()); b.param(d.param()); }
    template<class G, class E> static void one(Ctx& c, const std::string& what, G& g, D& d, E& e, const D& p) { if (c.s.coin()) { int n = 1 + (int)c.s.special(2147483646); br::uniform_int_distribution<> q(0, n - 1); int a = g(n), b = q(e); REQUIRE(c, a == b && a >= 0 && a < n, what << ": for " << n << " values it returns " << a << " instead of " << b); } else { int a = g(p.param()), b = d(e, p.param()); REQUIRE(c, a == b && a >= (p.min)() && a <= (p.max)(), what << ": with parameters it returns " << a << " instead of " << b); } }
    template<class G> static void bounds(Ctx& c, const std::string& what, const G& g, const D& d) { REQUIRE(c, (g.min)() == (d.min)() && (g.max)() == (d.max)(), what << ": bounds " << (g.min)() << ", " << (g.max)() << " instead of the distribution's"); }
    template<class V, class W> static void all_equal(Ctx& c, const std::string& what, const V& g, const W& m) { for (std::size_t i = 0; i < g.size(); ++i) REQUIRE(c, g[i]->distribution() == m[i].d, what << ": distribution of wrapper " << i); }
};
struct LReal : Full<boost::uniform_real<> > { static const char* n() { return "uniform_real"; } static D make(Ctx& c) { double lo = (double)c.s.irange(-1000, 1000); return D(lo, lo + 0.25 * (double)(1 + c.s.choose(1000000))); } };
void v01_a(Entries& v) { add_holds<Normal, br::mt19937>(v); add_holds<Normal, br::minstd_rand>(v); add_holds<Normal, std::mt19937>(v); add_holds<Expo, br::rand48>(v); add_holds<Expo, br::lagged_fibonacci607>(v); add_holds<UInt_, br::mt19937>(v); add_holds<UInt_, br::ranlux3>(v); add_holds<Legacy, br::minstd_rand0>(v); add_holds<Legacy, br::mt19937_64>(v); add_holds<LReal, br::ecuyer1988>(v); }
}
