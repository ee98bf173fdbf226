#include "cong.hpp"
namespace br = boost::random;
namespace vf {
CongP FN(u64 i, bool icg) {
#define L(n, T, a, c, m) if (!icg && i == n) return CongP(new CongT<T, br::linear_congruential_engine<T, a, c, m>, false>(a, c, (m) == 0 ? (u128)1 << std::numeric_limits<T>::digits : (u128)(m), "linear_congruential<" #T "," #a "," #c "," #m ">"));
#define I(n, T, a, b, p) if (icg && i == n) return CongP(new CongT<T, br::inversive_congruential_engine<T, a, b, p>, true>(a, b, p, "inversive_congruential<" #T "," #a "," #b "," #p ">"));
#include "lcg_params.inc"
    return CongP();
}
}
