#include "m01.hpp"
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
namespace br = boost::random;
namespace vf {
template<class T> using disc = br::discrete_distribution<unsigned, T>;
template<class T> using pcon = br::piecewise_constant_distribution<T, T>;
template<class T> using plin = br::piecewise_linear_distribution<T>;
template<class RT, class DT, bool F> struct PCon1 : PCon<RT, DT, RT, F> {};
void m01_e(Sames& v) { m3<Disc, disc>(v, "discrete", DISCRETE, true); m3<PCon1, pcon>(v, "piecewise_constant", PCONST, true); m3<PLin, plin>(v, "piecewise_linear", PLINEAR, true); }
}
