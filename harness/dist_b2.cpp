#include "dist_impl.hpp"
#include <boost/random/beta_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Gam, x, RT, RT, alpha, beta, 1, 1)
SCALAR1(ChiN, x, RT, n, 1)
void dist_b2(Dists& v) { add3<Gam, br::beta_distribution>(v, "beta", BETA); }
}
