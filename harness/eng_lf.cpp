#include "eng.hpp"
#include <boost/random/lagged_fibonacci.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class E, class S> void put(Registry& reg, const char* name, int w, int p, int q, bool real) {
    EngInfo i = base_info<E, S>(name, real ? "lf01" : "lf");
    i.range_words = (w + 31) / 32 * p; i.hints = { (u64)p, (u64)q, (u64)(p - q), (u64)(2 * p) };
    i.model = lag_model(w, p, q, real); i.word_bits = w; reg.push_back(i);
}
}
#define LF(T, w, p, q, name) put<br::lagged_fibonacci_engine<T, w, p, q>, T>(reg, name, w, p, q, false)
#define LR(T, w, p, q, name) put<br::lagged_fibonacci_01_engine<T, w, p, q>, std::uint32_t>(reg, name, w, p, q, true)
#define LN(T, p, q) put<br::T, std::uint32_t>(reg, #T, 48, p, q, true)
void reg_lf(Registry& reg) {
    LN(lagged_fibonacci607, 607, 273);
    LN(lagged_fibonacci1279, 1279, 418);
    LN(lagged_fibonacci2281, 2281, 1252);
    LN(lagged_fibonacci3217, 3217, 576);
    LN(lagged_fibonacci4423, 4423, 2098);
    LN(lagged_fibonacci9689, 9689, 5502);
    LN(lagged_fibonacci19937, 19937, 9842);
    LN(lagged_fibonacci23209, 23209, 13470);
    LN(lagged_fibonacci44497, 44497, 21034);
}
}
