#include "m01.hpp"
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Fish, x, RT, RT, m, n, 1, 1)
SCALAR2(Norm, x, RT, RT, mean, sigma, 0, 1)
SCALAR2(Logn, x, RT, RT, m, s, 0, 1)
SCALAR1(Expo, x, RT, lambda, 1)
void m01_c(Sames& v) { m3<Fish, br::fisher_f_distribution>(v, "fisher_f", FISHER, false); m3<Norm, br::normal_distribution>(v, "normal", NORMAL, false); m3<Logn, br::lognormal_distribution>(v, "lognormal", LOGNORMAL, false); m3<Expo, br::exponential_distribution>(v, "exponential", EXPONENTIAL, false); }
}
