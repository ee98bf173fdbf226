#include "eng.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/inversive_congruential.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class T, T a, T c, T m> void lcg(Registry& r, const char* name, u64 period = 0, u64 lo = 0, u64 hi = 0) {
    typedef br::linear_congruential_engine<T, a, c, m> E;
    EngInfo i = base_info<E, T>(name, "lcg");
    u128 M = m == 0 ? (u128)1 << std::numeric_limits<T>::digits : (u128)(u64)m;
    int k = (ceil_log2(M) + 31) / 32; if (k < 1) k = 1;
    i.range_words = k; i.log_discard = true; i.hints = { 1, 2, 3 };
    if (M <= 100000) i.hints.push_back((u64)M);
    // 32-bit seed words are reduced through IntType; exact only when no sign bit or truncation interferes
    if (!std::numeric_limits<T>::is_signed || sizeof(T) > 4) i.model = lcg_model((u64)a, (u64)c, M);
    i.period = period; i.attain_min = lo; i.attain_max = hi;
    r.push_back(i);
}
}
void reg_lcg2(Registry& r) {
    using std::int8_t; using std::uint8_t; using std::uint16_t; using std::int16_t; using std::int32_t; using std::int64_t; using std::uint64_t; using std::uint32_t;
    lcg<int32_t, 16807, 0, 2147483647>(r, "lcg_i32_minstd");
    lcg<int32_t, 48271, 11, 2147483399>(r, "lcg_i32_c");
    lcg<int64_t, 3512401965023503517ll, 0, 9223372036854775783ll>(r, "lcg_i64_big");
    lcg<int64_t, 16807, 5, 4294967291ll>(r, "lcg_i64_c");
    lcg<uint32_t, 41, 1, 100>(r, "lcg_41_1_100", 100, 0, 99);
    lcg<uint32_t, 1, 7, 1000>(r, "lcg_a1_c7_1000", 1000, 0, 999);
    lcg<uint32_t, 1, 2654435769u, 0>(r, "lcg_weyl32");
    lcg<uint64_t, 61, 7, 900>(r, "lcg_61_7_900", 900, 0, 899);
    lcg<uint32_t, 3, 0, 7>(r, "lcg_3_0_7", 6, 1, 6);
    lcg<uint32_t, 211, 1663, 7875>(r, "lcg_211_1663_7875", 7875, 0, 7874);
    lcg<uint32_t, 106, 1283, 6075>(r, "lcg_106_1283_6075", 6075, 0, 6074);
    lcg<uint16_t, 75, 74, 65521>(r, "lcg16_p");
    lcg<uint32_t, 65539, 0, 2147483648u>(r, "lcg_randu");
}
}
