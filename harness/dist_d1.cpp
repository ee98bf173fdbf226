#include "dist_impl.hpp"
#include <boost/random/non_central_chi_squared_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Ncc, x, RT, RT, k, lambda, 1, 1)
SCALAR1(Poi, x, RT, mean, 1)
template<class T> using ncc = br::non_central_chi_squared_distribution<T>;
void dist_d1(Dists& v) { add3<Ncc, ncc>(v, "non_central_chi_squared", NCCHI2); }
}
