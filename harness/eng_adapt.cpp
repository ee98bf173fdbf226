#include "eng.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/ranlux.hpp>
namespace vf {
namespace br = boost::random;
namespace {
const MtParams P19937 = { 32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253 };
const MtParams P19937_64 = { 64, 312, 156, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull };
template<class E, class S> void put(Registry& reg, const char* name, const char* fam, std::size_t words, std::vector<u64> hints, ModelFactory m, u64 cost) {
    EngInfo i = base_info<E, S>(name, fam); i.range_words = words; i.hints = hints; i.model = m; i.cost = cost; reg.push_back(i);
}
}
void reg_adapt(Registry& reg) {
    typedef std::uint32_t U; typedef std::uint64_t L;
    typedef br::linear_congruential_engine<std::uint32_t, 1366, 150889, 714025> K;
    typedef br::linear_congruential_engine<std::int32_t, 48271, 11, 2147483399> I32;
    typedef br::linear_congruential_engine<std::int64_t, 16807, 5, 4294967291ll> I64;
    typedef br::linear_congruential_engine<std::uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0> L64;
    typedef br::linear_congruential_engine<std::uint32_t, 5, 3, 16> S16;
    typedef br::linear_congruential_engine<std::uint64_t, 437799614237992725ull, 17, 2305843009213693951ull> M61;
    const u128 T64 = (u128)1 << 64;
    ModelFactory mlcg64 = lcg_model(6364136223846793005ull, 1442695040888963407ull, T64);
    put<br::kreutzer1986, U>(reg, "kreutzer1986", "shuffle", 1, { 97, 98, 194 }, shuffle_model(lcg_model(1366, 150889, 714025), 97, 0, 714024), 2);
    put<br::knuth_b, U>(reg, "knuth_b", "shuffle", 1, { 256, 257, 512 }, shuffle_model(lcg_model(16807, 0, 2147483647), 256, 1, 2147483646), 2);
    put<br::shuffle_order_engine<br::mt19937, 100>, U>(reg, "shuffle_mt_100", "shuffle", 624, { 100, 624 }, shuffle_model(mt_model(P19937), 100, 0, 4294967295ll), 2);
    put<br::shuffle_order_engine<L64, 31>, L>(reg, "shuffle_l64_31", "shuffle", 2, { 31, 32 }, shuffle_model(mlcg64, 31, 0, (__int128)(T64 - 1)), 2);
    put<br::shuffle_order_engine<M61, 200>, L>(reg, "shuffle_m61_200", "shuffle", 2, { 200, 201 }, shuffle_model(lcg_model(437799614237992725ull, 17, 2305843009213693951ull), 200, 0, 2305843009213693950ll), 2);
    put<br::shuffle_order_engine<br::minstd_rand, 1>, U>(reg, "shuffle_minstd_1", "shuffle", 1, { 1, 2 }, shuffle_model(lcg_model(48271, 0, 2147483647), 1, 1, 2147483646), 2);
    put<br::shuffle_order_engine<S16, 3>, U>(reg, "shuffle_s16_3", "shuffle", 1, { 3, 16 }, shuffle_model(lcg_model(5, 3, 16), 3, 0, 15), 2);
    put<br::shuffle_order_engine<I32, 64>, std::int32_t>(reg, "shuffle_i32_64", "shuffle", 1, { 64 }, ModelFactory(), 2);
    put<br::shuffle_order_engine<I64, 50>, std::int64_t>(reg, "shuffle_i64_50", "shuffle", 1, { 50 }, ModelFactory(), 2);
    put<br::shuffle_order_engine<br::mt19937_64, 7>, L>(reg, "shuffle_mt64_7", "shuffle", 624, { 7, 312 }, shuffle_model(mt_model(P19937_64), 7, 0, (__int128)(T64 - 1)), 2);
    put<br::discard_block_engine<br::minstd_rand, 7, 3>, U>(reg, "db_minstd_7_3", "discard_block", 1, { 3, 7, 6 }, db_model(lcg_model(48271, 0, 2147483647), 7, 3), 3);
    put<br::discard_block_engine<br::mt19937, 10, 10>, U>(reg, "db_mt_10_10", "discard_block", 624, { 10, 624 }, db_model(mt_model(P19937), 10, 10), 1);
    put<br::discard_block_engine<L64, 5, 1>, L>(reg, "db_l64_5_1", "discard_block", 2, { 1, 5 }, db_model(mlcg64, 5, 1), 5);
    put<br::discard_block_engine<br::lagged_fibonacci_01_engine<double, 32, 55, 24>, 11, 4>, U>(reg, "db_lf01_11_4", "discard_block", 55, { 4, 11, 55 }, db_model(lag_model(32, 55, 24, true), 11, 4), 3);
    put<br::discard_block_engine<br::discard_block_engine<br::minstd_rand0, 5, 2>, 3, 2>, U>(reg, "db_db_minstd", "discard_block", 1, { 2, 4, 6, 10 }, db_model(db_model(lcg_model(16807, 0, 2147483647), 5, 2), 3, 2), 5);
    put<br::shuffle_order_engine<br::ranlux24, 20>, U>(reg, "shuffle_ranlux24_20", "shuffle", 24, { 20, 23 }, shuffle_model(db_model(swc_model(24, 10, 24, false), 223, 23), 20, 0, 16777215), 12);
}
}
