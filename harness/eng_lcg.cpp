#include "eng.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/inversive_congruential.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class T, T a, T c, T m> void lcg(Registry& r, const char* name, u64 period = 0, u64 lo = 0, u64 hi = 0) {
    typedef br::linear_congruential_engine<T, a, c, m> E;
    EngInfo i = base_info<E, T>(name, "lcg");
    u128 M = m == 0 ? (u128)1 << std::numeric_limits<T>::digits : (u128)(u64)m;
    int k = (ceil_log2(M) + 31) / 32; if (k < 1) k = 1;
    i.range_words = k; i.log_discard = true; i.hints = { 1, 2, 3 };
    if (M <= 100000) i.hints.push_back((u64)M);
    // 32-bit seed words are reduced through IntType; exact only when no sign bit or truncation interferes
    if (!std::numeric_limits<T>::is_signed || sizeof(T) > 4) i.model = lcg_model((u64)a, (u64)c, M);
    i.period = period; i.attain_min = lo; i.attain_max = hi;
    r.push_back(i);
}
}
void reg_lcg(Registry& r) {
    using std::int8_t; using std::uint8_t; using std::uint16_t; using std::int16_t; using std::int32_t; using std::int64_t; using std::uint64_t; using std::uint32_t;
    lcg<uint32_t, 16807, 0, 2147483647>(r, "minstd_rand0");
    lcg<uint32_t, 48271, 0, 2147483647>(r, "minstd_rand");
    { EngInfo i = base_info<br::rand48, uint32_t>("rand48", "lcg"); i.range_words = 2; i.log_discard = true; i.model = rand48_model(); i.hints = { 1, 2, 3 }; r.push_back(i); }
    lcg<uint32_t, 1664525, 1013904223, 0>(r, "lcg32_full");
    lcg<uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0>(r, "lcg64_full");
    lcg<uint64_t, 6364136223846793005ull, 0, 0>(r, "lcg64_mult_full");
    lcg<uint16_t, 25173, 13849, 0>(r, "lcg16_full", 65536, 0, 65535);
    lcg<uint32_t, 1103515245, 12345, 2147483648u>(r, "lcg_ansi31");
    lcg<uint32_t, 5, 3, 16>(r, "lcg_5_3_16", 16, 0, 15);
    lcg<uint32_t, 137, 187, 256>(r, "lcg_137_187_256", 256, 0, 255);
    lcg<uint32_t, 1366, 150889, 714025>(r, "lcg_kreutzer", 714025, 0, 714024);
    lcg<uint32_t, 40014, 0, 2147483563>(r, "lcg_40014");
    lcg<uint32_t, 279470273u, 0, 4294967291u>(r, "lcg_p32");
    lcg<uint32_t, 1583458089u, 12345u, 4294967291u>(r, "lcg_p32_c");
    lcg<uint64_t, 3935559000370003845ull, 2691343689449507681ull, 18446744073709551557ull>(r, "lcg_p64");
    lcg<uint64_t, 1070922063159934167ull, 0, 1152921504606846883ull>(r, "lcg_p60");
    lcg<uint64_t, 437799614237992725ull, 17, 2305843009213693951ull>(r, "lcg_m61");
    lcg<uint64_t, 0x5DEECE66Dull, 0xB, (uint64_t)1 << 48>(r, "lcg_rand48_raw");
    lcg<uint64_t, 25214903917ull, 11, ((uint64_t)1 << 48) - 59>(r, "lcg_p48");
}
}
