#include "eng.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/taus88.hpp>
namespace vf {
namespace br = boost::random;
namespace {
const MtParams P19937 = { 32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253 };
template<class B, std::size_t w, class U> void ib(Registry& reg, const char* name, std::size_t words, ModelFactory m, u64 cost) {
    typedef br::independent_bits_engine<B, w, U> E;
    EngInfo i = base_info<E, typename B::result_type>(name, "ibits"); i.range_words = words; i.cost = cost; i.hints = { 1, 2, 3 };
    if (m) i.model = bits_model(m, w, (__int128)(B::min)(), (__int128)(B::max)());
    i.word_bits = w; reg.push_back(i);
}
}
void reg_ibits(Registry& reg) {
    typedef std::uint32_t U; typedef std::uint64_t L;
    typedef br::linear_congruential_engine<U, 5, 3, 16> S16; typedef br::linear_congruential_engine<U, 106, 1283, 6075> S6075;
    typedef br::linear_congruential_engine<L, 6364136223846793005ull, 1442695040888963407ull, 0> L64;
    typedef br::linear_congruential_engine<std::int32_t, 48271, 11, 2147483399> I32;
    typedef br::linear_congruential_engine<U, 1366, 150889, 714025> K;
    ModelFactory minstd = lcg_model(48271, 0, 2147483647), mt = mt_model(P19937), l64 = lcg_model(6364136223846793005ull, 1442695040888963407ull, (u128)1 << 64);
    ib<br::minstd_rand, 32, U>(reg, "ib_minstd_32", 1, minstd, 2);
    ib<br::minstd_rand, 1, U>(reg, "ib_minstd_1", 1, minstd, 1);
    ib<br::minstd_rand, 17, U>(reg, "ib_minstd_17", 1, minstd, 1);
    ib<br::minstd_rand, 30, U>(reg, "ib_minstd_30", 1, minstd, 1);
    ib<br::minstd_rand, 31, U>(reg, "ib_minstd_31", 1, minstd, 2);
    ib<br::minstd_rand, 64, L>(reg, "ib_minstd_64", 1, minstd, 3);
    ib<br::mt19937, 64, L>(reg, "ib_mt_64", 624, mt, 2);
    ib<br::mt19937, 32, U>(reg, "ib_mt_32", 624, mt, 1);
    ib<br::mt19937, 33, L>(reg, "ib_mt_33", 624, mt, 2);
    ib<br::mt19937, 7, std::uint16_t>(reg, "ib_mt_7", 624, mt, 1);
    ib<L64, 64, L>(reg, "ib_l64_64", 2, l64, 1);
    ib<L64, 13, U>(reg, "ib_l64_13", 2, l64, 1);
    ib<S16, 5, U>(reg, "ib_s16_5", 1, lcg_model(5, 3, 16), 2);
    ib<S6075, 24, U>(reg, "ib_s6075_24", 1, lcg_model(106, 1283, 6075), 3);
    ib<K, 37, L>(reg, "ib_k_37", 1, lcg_model(1366, 150889, 714025), 3);
    ib<K, 57, L>(reg, "ib_k_57", 1, lcg_model(1366, 150889, 714025), 4);
    ib<I32, 29, U>(reg, "ib_i32_29", 1, ModelFactory(), 1);
}
}
