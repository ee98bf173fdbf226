#include "dist_w.hpp"
#include <boost/random/hyperexponential_distribution.hpp>
namespace br = boost::random;
namespace vf { void dist_w3(Dists& v) { add3<Hype, br::hyperexponential_distribution>(v, "hyperexponential", HYPEREXP); } }
