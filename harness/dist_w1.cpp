#include "dist_w.hpp"
#include <boost/random/discrete_distribution.hpp>
namespace br = boost::random;
namespace vf {
#define DD(I, T, F) v.push_back(new DistT<Disc<T, br::discrete_distribution<I, T>, F> >(std::string("discrete<") + Nm<I>::n() + ", " + Nm<T>::n() + ">", DISCRETE));
void dist_w1(Dists& v) { DD(int, double, true) DD(int, float, false) DD(std::size_t, long double, false) DD(short, double, false) DD(int, unsigned, true) DD(int, int, false) DD(long long, unsigned long long, false) DD(unsigned, unsigned short, false) DD(int, long long, false) }
}
