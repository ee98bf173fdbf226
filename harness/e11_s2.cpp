// More parameter sets of the real-valued engines (E11).
#include "eng.hpp"
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/subtract_with_carry.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class E> void put(Registry& reg, const char* name, int w, int p, int q, bool lf) {
    EngInfo i = base_info<E, std::uint32_t>(name, lf ? "lf01" : "swc01"); i.range_words = (w + 31) / 32 * p; i.hints = { (u64)p, (u64)q, (u64)(p - q), (u64)(2 * p) };
    i.model = lf ? lag_model(w, p, q, true) : swc_model(w, q, p, true); i.word_bits = w; reg.push_back(i);
}
}
#define LR(T, w, p, q, name) put<br::lagged_fibonacci_01_engine<T, w, p, q> >(reg, name, w, p, q, true)
#define SWR(T, w, s, r, name) put<br::subtract_with_carry_01_engine<T, w, s, r> >(reg, name, w, r, s, false)
void reg_real2(Registry& reg) {
    LR(float, 1, 3, 2, "lf01_float_1_3_2");
    LR(float, 11, 4, 3, "lf01_float_11_4_3");
    SWR(float, 2, 27, 31, "swc01_float_2_31_27");
    LR(double, 52, 3, 2, "lf01_double_52_3_2");
    LR(double, 2, 5, 1, "lf01_double_2_5_1");
    LR(double, 31, 24, 20, "lf01_double_31_24_20");
    SWR(double, 52, 2, 10, "swc01_double_52_10_2");
    SWR(double, 24, 71, 97, "swc01_double_24_97_71");
    SWR(double, 32, 8, 17, "swc01_double_32_17_8");
    LR(long double, 62, 2, 1, "lf01_longdouble_62_2_1");
    LR(long double, 24, 10, 7, "lf01_longdouble_24_10_7");
    LR(long double, 32, 55, 45, "lf01_longdouble_32_55_45");
    SWR(long double, 62, 13, 97, "swc01_longdouble_62_97_13");
    SWR(long double, 44, 7, 10, "swc01_longdouble_44_10_7");
    SWR(long double, 33, 1, 4, "swc01_longdouble_33_4_1");
}
}
