#include "eng.hpp"
#include <boost/random/mersenne_twister.hpp>
namespace vf {
namespace br = boost::random;
#ifndef MT_NAME
#define MT_NAME reg_mt
#endif
namespace {
template<class T, std::size_t w, std::size_t n, std::size_t m, std::size_t r, T a, std::size_t u, T d, std::size_t s, T b, std::size_t t, T c, std::size_t l, T f>
void mt(Registry& reg, const char* name, bool big) {
    typedef br::mersenne_twister_engine<T, w, n, m, r, a, u, d, s, b, t, c, l, f> E;
    EngInfo i = base_info<E, T>(name, "mt");
    i.range_words = (w + 31) / 32 * n; i.hints = { n, n - m, m, 2 * n };
    MtParams p = { (int)w, (int)n, (int)m, (int)r, a, (int)u, d, (int)s, b, (int)t, c, (int)l, f };
    i.model = mt_model(p); i.word_bits = w; i.log_discard = !big;
    reg.push_back(i);
}
}
#ifndef MT_SMALL
void reg_mt(Registry& r) {
    mt<uint32_t, 32, 351, 175, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253>(r, "mt11213b", true);
    mt<uint32_t, 32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253>(r, "mt19937", true);
    mt<uint64_t, 64, 312, 156, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull>(r, "mt19937_64", true);
}
#else
#include "mt_small_params.inc"
#endif
}
