#include "eng.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/inversive_congruential.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class T, T a, T c, T m> void lcg(Registry& r, const char* name, u64 period = 0, u64 lo = 0, u64 hi = 0) {
    typedef br::linear_congruential_engine<T, a, c, m> E;
    EngInfo i = base_info<E, T>(name, "lcg");
    u128 M = m == 0 ? (u128)1 << std::numeric_limits<T>::digits : (u128)(u64)m;
    int k = (ceil_log2(M) + 31) / 32; if (k < 1) k = 1;
    i.range_words = k; i.log_discard = true; i.hints = { 1, 2, 3 };
    if (M <= 100000) i.hints.push_back((u64)M);
    // 32-bit seed words are reduced through IntType; exact only when no sign bit or truncation interferes
    if (!std::numeric_limits<T>::is_signed || sizeof(T) > 4) i.model = lcg_model((u64)a, (u64)c, M);
    i.period = period; i.attain_min = lo; i.attain_max = hi;
    r.push_back(i);
}
}
void reg_cong(Registry& r) {
    using std::int8_t; using std::uint8_t; using std::uint16_t; using std::int16_t; using std::int32_t; using std::int64_t; using std::uint64_t; using std::uint32_t;
    { typedef br::ecuyer1988 E; EngInfo i = base_info<E, uint32_t>("ecuyer1988", "additive"); i.range_words = 2; i.log_discard = true;
      i.model = add_model(40014, 2147483563, 40692, 2147483399); i.hints = { 1, 2, 3 }; r.push_back(i); }
    { typedef br::additive_combine_engine<br::linear_congruential_engine<uint64_t, 1070922063159934167ull, 0, 1152921504606846883ull>,
        br::linear_congruential_engine<uint64_t, 437799614237992725ull, 0, 1152921504606846803ull> > E;
      EngInfo i = base_info<E, uint64_t>("additive64", "additive"); i.range_words = 4; i.log_discard = true;
      i.model = add_model(1070922063159934167ull, 1152921504606846883ull, 437799614237992725ull, 1152921504606846803ull); i.hints = { 1, 2, 3 }; r.push_back(i); }
    { typedef br::additive_combine_engine<br::linear_congruential_engine<uint32_t, 5, 0, 23>, br::linear_congruential_engine<uint32_t, 2, 0, 19> > E;
      EngInfo i = base_info<E, uint32_t>("additive_small", "additive"); i.range_words = 2; i.log_discard = true;
      i.model = add_model(5, 23, 2, 19); i.hints = { 22, 18, 198 }; i.period = 198; i.attain_min = 1; i.attain_max = 22; r.push_back(i); }
    { typedef br::hellekalek1995 E; EngInfo i = base_info<E, uint32_t>("hellekalek1995", "inversive"); i.range_words = 1; i.cost = 20;
      i.model = icg_model(9102, 2147483647u - 36884165u, 2147483647u); i.hints = { 1, 2 }; r.push_back(i); }
    { typedef br::inversive_congruential_engine<uint32_t, 22, 3, 251> E; EngInfo i = base_info<E, uint32_t>("icg_251", "inversive"); i.range_words = 1; i.cost = 10;
      i.model = icg_model(22, 3, 251); i.hints = { 251 }; r.push_back(i); }
    { typedef br::inversive_congruential_engine<uint32_t, 7, 4, 1009> E; EngInfo i = base_info<E, uint32_t>("icg_1009", "inversive"); i.range_words = 1; i.cost = 10;
      i.model = icg_model(7, 4, 1009); i.hints = { 2 }; r.push_back(i); }
    { typedef br::inversive_congruential_engine<int64_t, 288000, 1234577, 4294967291ll> E; EngInfo i = base_info<E, int64_t>("icg_i64", "inversive"); i.range_words = 1; i.cost = 20;
      i.model = icg_model(288000, 1234577, 4294967291ull); i.hints = { 2 }; r.push_back(i); }
    { typedef br::inversive_congruential_engine<uint64_t, 9102, 36884165, 18446744073709551557ull> E; EngInfo i = base_info<E, uint64_t>("icg_p64", "inversive"); i.range_words = 2; i.cost = 40;
      i.model = icg_model(9102, 36884165, 18446744073709551557ull); i.hints = { 2 }; r.push_back(i); }
}
}
