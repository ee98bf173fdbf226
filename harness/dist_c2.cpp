#include "dist_impl.hpp"
#include <boost/random/student_t_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Fish, x, RT, RT, m, n, 1, 1)
SCALAR1(StuN, x, RT, n, 1)
void dist_c2(Dists& v) { add3<StuN, br::student_t_distribution>(v, "student_t", STUDENT); }
}
