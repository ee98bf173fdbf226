// More parameter sets of the real-valued engines (E11).
#include "eng.hpp"
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/subtract_with_carry.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class E> void put(Registry& reg, const char* name, int w, int p, int q, bool lf) {
    EngInfo i = base_info<E, std::uint32_t>(name, lf ? "lf01" : "swc01"); i.range_words = (w + 31) / 32 * p; i.hints = { (u64)p, (u64)q, (u64)(p - q), (u64)(2 * p) };
    i.model = lf ? lag_model(w, p, q, true) : swc_model(w, q, p, true); i.word_bits = w; reg.push_back(i);
}
}
#define LR(T, w, p, q, name) put<br::lagged_fibonacci_01_engine<T, w, p, q> >(reg, name, w, p, q, true)
#define SWR(T, w, s, r, name) put<br::subtract_with_carry_01_engine<T, w, s, r> >(reg, name, w, r, s, false)
void reg_real0(Registry& reg) {
    LR(float, 23, 10, 4, "lf01_float_23_10_4");
    LR(float, 2, 24, 18, "lf01_float_2_24_18");
    SWR(float, 23, 1, 2, "swc01_float_23_2_1");
    SWR(float, 23, 6, 17, "swc01_float_23_17_6");
    LR(double, 51, 31, 16, "lf01_double_51_31_16");
    LR(double, 24, 3, 1, "lf01_double_24_3_1");
    LR(double, 32, 31, 3, "lf01_double_32_31_3");
    SWR(double, 51, 2, 3, "swc01_double_51_3_2");
    SWR(double, 50, 2, 3, "swc01_double_50_3_2");
    SWR(double, 33, 4, 5, "swc01_double_33_5_4");
    LR(long double, 1, 2, 1, "lf01_longdouble_1_2_1");
    LR(long double, 28, 3, 2, "lf01_longdouble_28_3_2");
    LR(long double, 33, 24, 2, "lf01_longdouble_33_24_2");
    SWR(long double, 2, 3, 31, "swc01_longdouble_2_31_3");
    SWR(long double, 31, 1, 55, "swc01_longdouble_31_55_1");
}
}
