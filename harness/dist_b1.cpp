#include "dist_impl.hpp"
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Gam, x, RT, RT, alpha, beta, 1, 1)
SCALAR1(ChiN, x, RT, n, 1)
void dist_b1(Dists& v) { add3<Gam, br::gamma_distribution>(v, "gamma", GAMMA); add3<ChiN, br::chi_squared_distribution>(v, "chi_squared", CHI2); }
}
