#include "m01.hpp"
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
namespace br = boost::random;
namespace vf {
SCALAR2(Gam, x, RT, RT, alpha, beta, 1, 1)
SCALAR2(Bet, x, RT, RT, alpha, beta, 1, 1)
SCALAR1(ChiN, x, RT, n, 1)
void m01_b(Sames& v) { m3<Gam, br::gamma_distribution>(v, "gamma", GAMMA, false); m3<ChiN, br::chi_squared_distribution>(v, "chi_squared", CHI2, false); m3<ChiN, br::student_t_distribution>(v, "student_t", STUDENT, false); m3<Bet, br::beta_distribution>(v, "beta", BETA, false); }
}
