#include "dist_impl.hpp"
#include <boost/random/poisson_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Ncc, x, RT, RT, k, lambda, 1, 1)
SCALAR1(Poi, x, RT, mean, 1)
void dist_d2(Dists& v) { add_int<Poi, br::poisson_distribution>(v, "poisson", POISSON); }
}
