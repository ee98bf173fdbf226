// More parameter sets of the real-valued engines (E11).
#include "eng.hpp"
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/subtract_with_carry.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class E> void put(Registry& reg, const char* name, int w, int p, int q, bool lf) {
    EngInfo i = base_info<E, std::uint32_t>(name, lf ? "lf01" : "swc01"); i.range_words = (w + 31) / 32 * p; i.hints = { (u64)p, (u64)q, (u64)(p - q), (u64)(2 * p) };
    i.model = lf ? lag_model(w, p, q, true) : swc_model(w, q, p, true); i.word_bits = w; reg.push_back(i);
}
}
#define LR(T, w, p, q, name) put<br::lagged_fibonacci_01_engine<T, w, p, q> >(reg, name, w, p, q, true)
#define SWR(T, w, s, r, name) put<br::subtract_with_carry_01_engine<T, w, s, r> >(reg, name, w, r, s, false)
void reg_real1(Registry& reg) {
    LR(float, 22, 5, 2, "lf01_float_22_5_2");
    LR(float, 23, 55, 16, "lf01_float_23_55_16");
    SWR(float, 22, 1, 2, "swc01_float_22_2_1");
    SWR(float, 19, 6, 10, "swc01_float_19_10_6");
    LR(double, 1, 5, 2, "lf01_double_1_5_2");
    LR(double, 10, 31, 29, "lf01_double_10_31_29");
    LR(double, 33, 3, 1, "lf01_double_33_3_1");
    SWR(double, 2, 4, 7, "swc01_double_2_7_4");
    SWR(double, 31, 2, 31, "swc01_double_31_31_2");
    LR(long double, 63, 4, 2, "lf01_longdouble_63_4_2");
    LR(long double, 2, 97, 6, "lf01_longdouble_2_97_6");
    LR(long double, 31, 31, 29, "lf01_longdouble_31_31_29");
    SWR(long double, 63, 23, 24, "swc01_longdouble_63_24_23");
    SWR(long double, 24, 1, 2, "swc01_longdouble_24_2_1");
    SWR(long double, 32, 1, 2, "swc01_longdouble_32_2_1");
}
}
