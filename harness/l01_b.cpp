#include "l01.hpp"
#include <boost/random.hpp>
#include <boost/random/shuffle_output.hpp>
namespace br = boost::random;
namespace vf {
#define COMMA ,
#define L(N, O, M, R) v.push_back({ N, &Legacy<O, M, R>::run });
#define B1(N, O, M, B) v.push_back({ N " from a base engine", &from_base<O, M, B> });
#define B2(N, O, M, A, B) v.push_back({ N " from base engines", &from_bases<O, M, A, B> });
typedef br::subtract_with_carry<u32, (1u << 24), 10, 24, 0> SW1; typedef br::ranlux_base SWX; typedef br::subtract_with_carry_engine<u32, 24, 10, 24> SW1E;
typedef br::subtract_with_carry<std::int32_t, (1 << 24), 10, 24, 0> SW2; typedef br::subtract_with_carry_engine<std::int32_t, 24, 10, 24> SW2E;
typedef br::subtract_with_carry_01<float, 24, 10, 24> SF1; typedef br::subtract_with_carry_01_engine<float, 24, 10, 24> SF1E;
typedef br::subtract_with_carry_01<double, 48, 5, 12> SF2; typedef br::subtract_with_carry_01_engine<double, 48, 5, 12> SF2E;
typedef br::lagged_fibonacci<u32, 32, 55, 24, 0> LG1; typedef br::lagged_fibonacci_engine<u32, 32, 55, 24> LG1E;
typedef br::lagged_fibonacci<u32, 16, 17, 5, 0> LG2; typedef br::lagged_fibonacci_engine<u32, 16, 17, 5> LG2E;
typedef br::lagged_fibonacci_01<double, 48, 607, 273> LR1; typedef br::lagged_fibonacci607 LR1E;
typedef br::lagged_fibonacci_01<float, 20, 17, 5> LR2; typedef br::lagged_fibonacci_01_engine<float, 20, 17, 5> LR2E;
typedef br::discard_block<br::mt19937, 17, 5> DB1; typedef br::discard_block_engine<br::mt19937, 17, 5> DB1E;
typedef br::discard_block<br::minstd_rand, 7, 7> DB2; typedef br::discard_block_engine<br::minstd_rand, 7, 7> DB2E;
typedef br::discard_block<SF1E, 223, 24> DB3; typedef br::ranlux3_01 DB3E;
typedef br::shuffle_output<br::minstd_rand0, 97> SH1; typedef br::shuffle_order_engine<br::minstd_rand0, 97> SH1E;
typedef br::shuffle_output<br::mt19937, 8> SH2; typedef br::shuffle_order_engine<br::mt19937, 8> SH2E;
typedef br::linear_congruential_engine<u32, 40014, 0, 2147483563> EC1; typedef br::linear_congruential_engine<u32, 40692, 0, 2147483399> EC2;
typedef br::additive_combine<EC1, EC2> AC1; typedef br::ecuyer1988 AC1E;
typedef br::xor_combine<br::mt19937, 0, br::taus88, 0, 0> XC1; typedef br::xor_combine_engine<br::mt19937, 0, br::taus88, 0> XC1E;
typedef br::xor_combine<br::rand48, 0, br::rand48, 1, 0> XC2; typedef br::xor_combine_engine<br::rand48, 0, br::rand48, 1> XC2E;
void l01_b(std::vector<Pair>& v) {
    L("subtract_with_carry<uint32, 2^24, 10, 24>", SW1, SW1E, VALUE | GEN | RANGE | TEXT) L("subtract_with_carry<int32, 2^24, 10, 24>", SW2, SW2E, VALUE | GEN | RANGE | TEXT)
    L("subtract_with_carry_01<float, 24, 10, 24>", SF1, SF1E, GEN | RANGE | TEXT) L("subtract_with_carry_01<double, 48, 5, 12>", SF2, SF2E, GEN | RANGE | TEXT)
    L("lagged_fibonacci<32, 55, 24>", LG1, LG1E, VALUE | SEQ | RANGE | TEXT) L("lagged_fibonacci<16, 17, 5>", LG2, LG2E, VALUE | SEQ | RANGE | TEXT)
    L("lagged_fibonacci_01<double, 48, 607, 273>", LR1, LR1E, SEQ | RANGE | TEXT) L("lagged_fibonacci_01<float, 20, 17, 5>", LR2, LR2E, SEQ | RANGE | TEXT)
    L("discard_block<mt19937, 17, 5>", DB1, DB1E, VALUE | SEQ | RANGE | TEXT) L("discard_block<minstd_rand, 7, 7>", DB2, DB2E, VALUE | SEQ | RANGE | TEXT) L("discard_block<subtract_with_carry_01, 223, 24>", DB3, DB3E, SEQ | RANGE | TEXT)
    L("shuffle_output<minstd_rand0, 97>", SH1, SH1E, VALUE | SEQ | RANGE | TEXT) L("shuffle_output<mt19937, 8>", SH2, SH2E, VALUE | SEQ | RANGE | TEXT)
    L("additive_combine<ecuyer1988>", AC1, AC1E, VALUE | SEQ | RANGE | TEXT) L("xor_combine<mt19937, 0, taus88, 0>", XC1, XC1E, VALUE | RANGE | TEXT) L("xor_combine<rand48, 0, rand48, 1>", XC2, XC2E, VALUE | RANGE | TEXT)
    B1("discard_block<mt19937, 17, 5>", DB1, DB1E, br::mt19937) B1("discard_block<minstd_rand, 7, 7>", DB2, DB2E, br::minstd_rand) B1("shuffle_output<minstd_rand0, 97>", SH1, SH1E, br::minstd_rand0) B1("shuffle_output<mt19937, 8>", SH2, SH2E, br::mt19937)
    B2("xor_combine<mt19937, 0, taus88, 0>", XC1, XC1E, br::mt19937, br::taus88) B2("xor_combine<rand48, 0, rand48, 1>", XC2, XC2E, br::rand48, br::rand48)
}
}
