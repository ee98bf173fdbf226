#include "l01.hpp"
#include <boost/random.hpp>
namespace br = boost::random;
namespace vf {
#define COMMA ,
#define L(N, O, M, R) v.push_back({ N, &Legacy<O, M, R>::run });
typedef br::linear_congruential<u32, 16807, 0, 2147483647, 1043618065> LC1; typedef br::linear_congruential_engine<u32, 16807, 0, 2147483647> LC1E;
typedef br::linear_congruential<u32, 69069, 1, 0, 0> LC2; typedef br::linear_congruential_engine<u32, 69069, 1, 0> LC2E;
typedef br::linear_congruential<std::int32_t, 40014, 0, 2147483563, 0> LC3; typedef br::linear_congruential_engine<std::int32_t, 40014, 0, 2147483563> LC3E;
typedef br::inversive_congruential<u32, 9102, 2147483647u - 36884165, 2147483647u, 0> IC1; typedef br::inversive_congruential_engine<u32, 9102, 2147483647u - 36884165, 2147483647u> IC1E;
typedef br::linear_feedback_shift<u32, 32, 31, 13, 12, 0> LF1; typedef br::linear_feedback_shift_engine<u32, 32, 31, 13, 12> LF1E;
typedef br::linear_feedback_shift<u32, 32, 28, 3, 17, 0> LF2; typedef br::linear_feedback_shift_engine<u32, 32, 28, 3, 17> LF2E;
typedef br::mersenne_twister<u32, 32, 351, 175, 19, 0xccab8ee7u, 11, 7, 0x31b6ab00u, 15, 0xffe50000u, 17, 0xa37d3c92u> MT1; typedef br::mt11213b MT1E;
typedef br::mersenne_twister<u32, 32, 624, 397, 31, 0x9908b0dfu, 11, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 3346425566u> MT2; typedef br::mt19937 MT2E;
void l01_a(std::vector<Pair>& v) {
    L("linear_congruential<16807, 0, 2^31-1>", LC1, LC1E, VALUE | RANGE | TEXT) L("linear_congruential<69069, 1, 0>", LC2, LC2E, VALUE | RANGE | TEXT) L("linear_congruential<int32, 40014>", LC3, LC3E, VALUE | RANGE | TEXT)
    L("inversive_congruential<9102>", IC1, IC1E, VALUE | RANGE | TEXT)
    L("linear_feedback_shift<31, 13, 12>", LF1, LF1E, VALUE | SEQ | RANGE | TEXT) L("linear_feedback_shift<28, 3, 17>", LF2, LF2E, VALUE | SEQ | RANGE | TEXT)
    L("mersenne_twister<351>", MT1, MT1E, VALUE | RANGE | TEXT) L("mersenne_twister<624>", MT2, MT2E, VALUE | RANGE | TEXT)
}
}
