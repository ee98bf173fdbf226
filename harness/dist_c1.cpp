#include "dist_impl.hpp"
#include <boost/random/fisher_f_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Fish, x, RT, RT, m, n, 1, 1)
SCALAR1(StuN, x, RT, n, 1)
void dist_c1(Dists& v) { add3<Fish, br::fisher_f_distribution>(v, "fisher_f", FISHER); }
}
