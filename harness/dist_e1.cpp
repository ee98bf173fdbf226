#include "dist_impl.hpp"
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR1(Prob, x, RT, p, 0.5L)
SCALAR2(Bino, x, typename DT::result_type, RT, t, p, 1, 0.5L)
SCALAR2(Nega, x, typename DT::result_type, RT, k, p, 1, 0.5L)
void dist_e1(Dists& v) { add3<Prob, br::bernoulli_distribution>(v, "bernoulli", BERNOULLI); add_int<Prob, br::geometric_distribution>(v, "geometric", GEOMETRIC); add_int<Bino, br::binomial_distribution>(v, "binomial", BINOMIAL); }
}
