#include "dist_impl.hpp"
#include <boost/random/negative_binomial_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR1(Prob, x, RT, p, 0.5L)
SCALAR2(Bino, x, typename DT::result_type, RT, t, p, 1, 0.5L)
SCALAR2(Nega, x, typename DT::result_type, RT, k, p, 1, 0.5L)
void dist_e2(Dists& v) { add_int<Nega, br::negative_binomial_distribution>(v, "negative_binomial", NEGBINOMIAL); }
}
