#include "eng.hpp"
#include <boost/random/lagged_fibonacci.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class E, class S> void put(Registry& reg, const char* name, int w, int p, int q, bool real) {
    EngInfo i = base_info<E, S>(name, real ? "lf01" : "lf");
    i.range_words = (w + 31) / 32 * p; i.hints = { (u64)p, (u64)q, (u64)(p - q), (u64)(2 * p) };
    i.model = lag_model(w, p, q, real); i.word_bits = w; reg.push_back(i);
}
}
#define LF(T, w, p, q, name) put<br::lagged_fibonacci_engine<T, w, p, q>, T>(reg, name, w, p, q, false)
#define LR(T, w, p, q, name) put<br::lagged_fibonacci_01_engine<T, w, p, q>, std::uint32_t>(reg, name, w, p, q, true)
#define LN(T, p, q) put<br::T, std::uint32_t>(reg, #T, 48, p, q, true)
void reg_lf2(Registry& reg) {
    LF(std::uint32_t, 32, 55, 24, "lf32_55_24");
    LF(std::uint32_t, 24, 17, 5, "lf24_17_5");
    LF(std::uint64_t, 64, 55, 24, "lf64_55_24");
    LF(std::uint64_t, 48, 607, 273, "lf48_607");
    LF(std::uint32_t, 3, 7, 3, "lf3_7_3");
    LF(std::uint16_t, 16, 10, 7, "lf16_10_7");
    LF(std::uint64_t, 32, 2, 1, "lf32_2_1");
    LR(float, 23, 55, 24, "lf01_f_23");
    LR(double, 32, 55, 24, "lf01_d_32");
    LR(long double, 63, 17, 5, "lf01_ld_63");
    LR(double, 52, 10, 7, "lf01_d_52");
    LR(float, 11, 5, 2, "lf01_f_11");
    LR(double, 20, 3, 1, "lf01_d_20");
}
}
