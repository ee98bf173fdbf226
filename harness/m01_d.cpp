#include "m01.hpp"
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Lapl, x, RT, RT, mean, beta, 0, 1)
SCALAR2(UR, x, RT, RT, a, b, 0, 1)
SCALAR1(Prob, x, RT, p, 0.5L)
template<class T> using geo = br::geometric_distribution<int, T>;
void m01_d(Sames& v) { m3<Lapl, br::laplace_distribution>(v, "laplace", LAPLACE, false); m3<UR, br::uniform_real_distribution>(v, "uniform_real_distribution", UNIFORM_REAL, true); m3<Prob, br::bernoulli_distribution>(v, "bernoulli", BERNOULLI, true); m3<Prob, geo>(v, "geometric", GEOMETRIC, false); }
}
