#include "dist_impl.hpp"
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_01.hpp>
namespace br = boost::random;
namespace vf {
// integer bounds
template<class RT, class DT, ld* Hi> struct UI { typedef DT D; typedef RT R; typedef RT W; static const bool full = false; static const int routes = 1;
    template<class O, class X> static O* build(const P& p, int route) { if (route == 100) return new O(X()); if (route == 101) return new O(X((RT)p.v[0])); return new O(X((RT)p.v[0], (RT)p.v[1])); } template<class X> static P get(const X& x) { return P((ld)x.a(), (ld)x.b()); } static P def() { return P(0, *Hi); } };
template<class T> struct Top { static ld full, nine; }; template<class T> ld Top<T>::full = (ld)(std::numeric_limits<T>::max)(); template<class T> ld Top<T>::nine = 9;
SCALAR2(UR, x, RT, RT, a, b, 0, 1)
#define UADD(T) v.push_back(new DistT<UI<T, br::uniform_int_distribution<T>, &Top<T>::full> >(std::string("uniform_int_distribution<") + Nm<T>::n() + ">", UNIFORM_INT)); v.push_back(new DistT<UI<T, boost::uniform_int<T>, &Top<T>::nine> >(std::string("uniform_int<") + Nm<T>::n() + ">", UNIFORM_INT)); v.push_back(new DistT<UI<T, br::uniform_smallint<T>, &Top<T>::nine> >(std::string("uniform_smallint<") + Nm<T>::n() + ">", UNIFORM_SMALLINT));
void dist_u(Dists& v) {
    UADD(int) UADD(long long) UADD(unsigned) UADD(short) UADD(unsigned long long)
    add3<UR, br::uniform_real_distribution>(v, "uniform_real_distribution", UNIFORM_REAL); add3<UR, boost::uniform_real>(v, "uniform_real", UNIFORM_REAL);
}
}
