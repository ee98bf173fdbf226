#include "v01.hpp"
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/weibull_distribution.hpp>
namespace vf { namespace br = boost::random;
struct Gamma : Full<br::gamma_distribution<> > { static const char* n() { return "gamma"; } static D make(Ctx& c) { return D((1 + c.s.choose(20)) / 4.0, (1 + c.s.choose(20)) / 4.0); } };
struct Beta : Full<br::beta_distribution<> > { static const char* n() { return "beta"; } static D make(Ctx& c) { return D((2 + c.s.choose(20)) / 4.0, (2 + c.s.choose(20)) / 4.0); } };
struct Logn : Full<br::lognormal_distribution<> > { static const char* n() { return "lognormal"; } static D make(Ctx& c) { return D(c.s.irange(-5, 5), (1 + c.s.choose(9)) * 0.25); } };
struct Stud : Full<br::student_t_distribution<> > { static const char* n() { return "student_t"; } static D make(Ctx& c) { return D((double)(1 + c.s.choose(20))); } };
struct Fish : Full<br::fisher_f_distribution<> > { static const char* n() { return "fisher_f"; } static D make(Ctx& c) { return D((double)(1 + c.s.choose(20)), (double)(1 + c.s.choose(20))); } };
struct PLin : Full<br::piecewise_linear_distribution<> > { static const char* n() { return "piecewise_linear"; } static D make(Ctx& c) { std::vector<double> b, w; double x = (double)c.s.irange(-9, 9); for (u64 i = 0, k = 2 + c.s.choose(4); i < k; ++i) { b.push_back(x); x += (double)(1 + c.s.choose(9)); w.push_back((double)(1 + c.s.choose(9))); } return D(b.begin(), b.end(), w.begin()); } };
struct Sph : Full<br::uniform_on_sphere<> > { static const char* n() { return "uniform_on_sphere"; } static D make(Ctx& c) { return D((int)(1 + c.s.choose(5))); } };
struct Tri : Full<br::triangle_distribution<> > { static const char* n() { return "triangle"; } static D make(Ctx& c) { return D(-(double)c.s.choose(9), 0, (double)(1 + c.s.choose(9))); } };
struct Cau : Full<br::cauchy_distribution<> > { static const char* n() { return "cauchy"; } static D make(Ctx& c) { return D(c.s.irange(-5, 5), (1 + c.s.choose(9)) * 0.25); } };
struct Chi : Full<br::chi_squared_distribution<> > { static const char* n() { return "chi_squared"; } static D make(Ctx& c) { return D((double)(1 + c.s.choose(20))); } };
struct NegB : Full<br::negative_binomial_distribution<> > { static const char* n() { return "negative_binomial"; } static D make(Ctx& c) { return D((int)(1 + c.s.choose(9)), (2 + c.s.choose(12)) / 16.0); } };
struct Hyp : Full<br::hyperexponential_distribution<> > { static const char* n() { return "hyperexponential"; } static D make(Ctx& c) { std::vector<double> p, r; for (u64 i = 0, k = 1 + c.s.choose(3); i < k; ++i) { p.push_back((double)(1 + c.s.choose(7))); r.push_back((double)(1 + c.s.choose(9))); } return D(p.begin(), p.end(), r.begin(), r.end()); } };
struct Lap : Full<br::laplace_distribution<> > { static const char* n() { return "laplace"; } static D make(Ctx& c) { return D(c.s.irange(-5, 5), (1 + c.s.choose(9)) * 0.25); } };
struct Wei : Full<br::weibull_distribution<> > { static const char* n() { return "weibull"; } static D make(Ctx& c) { return D((1 + c.s.choose(9)) * 0.5, (1 + c.s.choose(9)) * 0.25); } };
typedef br::discard_block_engine<br::mt19937, 17, 5> Disc17;
void v01_c(Entries& v) { add_holds<Gamma, br::mt19937>(v); add_holds<Beta, br::mt19937>(v); add_holds<Logn, br::mt19937>(v); add_holds<Logn, br::lagged_fibonacci607>(v); add_holds<Stud, br::minstd_rand>(v); add_holds<Fish, br::mt19937>(v); add_holds<PLin, br::mt19937_64>(v); add_holds<Sph, br::mt19937>(v); add_holds<Sph, br::lagged_fibonacci607>(v); }
void v01_d(Entries& v) { add_holds<Tri, br::mt19937>(v); add_holds<Cau, br::rand48>(v); add_holds<Chi, br::mt19937>(v); add_holds<NegB, br::mt19937>(v); add_holds<Hyp, br::mt19937>(v); add_holds<Lap, Disc17>(v); add_holds<Wei, br::ecuyer1988>(v); }
}
