#include "v01.hpp"
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/discrete_distribution.hpp>
namespace vf { namespace br = boost::random;
struct Bern : Full<br::bernoulli_distribution<> > { static const char* n() { return "bernoulli"; } static D make(Ctx& c) { return D(c.s.choose(16) / 16.0); } };
struct Bino : Full<br::binomial_distribution<> > { static const char* n() { return "binomial"; } static D make(Ctx& c) { return D((int)c.s.choose(200), c.s.choose(16) / 16.0); } };
struct Pois : Full<br::poisson_distribution<> > { static const char* n() { return "poisson"; } static D make(Ctx& c) { return D((1 + c.s.choose(200)) / 4.0); } };
struct Geom : Full<br::geometric_distribution<> > { static const char* n() { return "geometric"; } static D make(Ctx& c) { return D((1 + c.s.choose(14)) / 16.0); } };
struct Small : Full<br::uniform_smallint<> > { static const char* n() { return "uniform_smallint"; } static D make(Ctx& c) { int lo = (int)c.s.irange(-20, 20); return D(lo, lo + (int)c.s.choose(40)); } };
struct Disc : Full<br::discrete_distribution<> > { static const char* n() { return "discrete"; } static D make(Ctx& c) { std::vector<double> w(1 + c.s.choose(6)); for (double& x : w) x = (double)(1 + c.s.choose(7)); return D(w.begin(), w.end()); } };
// no parameters
struct U01 { typedef br::uniform_01<> D; static const char* n() { return "uniform_01"; } static D make(Ctx&) { return D(); } static void param(D&, D&, const D&) {}
    template<class G, class E> static void one(Ctx& c, const std::string& what, G& g, D& d, E& e, const D&) { double a = g(), b = d(e); REQUIRE(c, a == b && a >= 0 && a < 1, what << ": it returns " << a << " instead of " << b); }
    template<class G> static void bounds(Ctx& c, const std::string& what, const G& g, const D&) { REQUIRE(c, (g.min)() == 0 && (g.max)() == 1, what << ": bounds"); } template<class V, class W> static void all_equal(Ctx&, const std::string&, const V&, const W&) {} };
void v01_b(Entries& v) { add_holds<Bern, br::mt11213b>(v); add_holds<Bern, br::lagged_fibonacci1279>(v); add_holds<Bino, br::mt19937>(v); add_holds<Bino, std::minstd_rand>(v); add_holds<Pois, br::minstd_rand>(v); add_holds<Geom, br::kreutzer1986>(v); add_holds<Small, br::rand48>(v); add_holds<Disc, br::mt19937>(v); add_holds<Disc, std::mt19937_64>(v); add_holds<U01, br::ranlux4_01>(v); add_holds<U01, br::mt19937>(v); }
}
