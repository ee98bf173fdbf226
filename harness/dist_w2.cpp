#include "dist_w.hpp"
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
namespace br = boost::random;
namespace vf {
#define PC(T, U, F) v.push_back(new DistT<PCon<T, br::piecewise_constant_distribution<T, U>, U, F> >(std::string("piecewise_constant<") + Nm<T>::n() + ", " + Nm<U>::n() + ">", PCONST));
#define PL(T, F) v.push_back(new DistT<PLin<T, br::piecewise_linear_distribution<T>, F> >(std::string("piecewise_linear<") + Nm<T>::n() + ">", PLINEAR));
void dist_w2(Dists& v) { PC(double, double, true) PC(float, float, false) PC(long double, long double, false) PC(double, unsigned, false) PL(double, true) PL(float, false) PL(long double, false) }
}
