#include "dist_impl.hpp"
#include <boost/random/normal_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
namespace br = boost::random;
namespace vf {
template<class RT, class DT, bool F> struct Tri { typedef DT D; typedef RT R; typedef RT W; static const bool full = F; static const int routes = 1;
    template<class O, class X> static O* build(const P& p, int route) { if (route == 100) return new O(X()); if (route == 101) return new O(X((RT)p.v[0])); if (route == 102) return new O(X((RT)p.v[0], (RT)p.v[1])); return new O(X((RT)p.v[0], (RT)p.v[1], (RT)p.v[2])); } template<class X> static P get(const X& x) { return P((ld)x.a(), (ld)x.b(), (ld)x.c()); } static P def() { return P(0, 0.5L, 1); } };
SCALAR2(Norm, x, RT, RT, mean, sigma, 0, 1)
SCALAR2(Logn, x, RT, RT, m, s, 0, 1)
SCALAR1(Expo, x, RT, lambda, 1)
SCALAR2(Lapl, x, RT, RT, mean, beta, 0, 1)
SCALAR2(Cauc, x, RT, RT, median, sigma, 0, 1)
SCALAR2(AB, x, RT, RT, a, b, 1, 1)
void dist_a2(Dists& v) { add3<Norm, br::normal_distribution>(v, "normal", NORMAL); add3<Logn, br::lognormal_distribution>(v, "lognormal", LOGNORMAL); }
}
