#include "eng.hpp"
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
namespace vf {
namespace br = boost::random;
template<> struct has_range<br::splitmix64> : std::false_type {};
namespace {
template<class T, int w, int k, int q, int s> void lfsr(Registry& reg, const char* name, u64 period = 0) {
    typedef br::linear_feedback_shift_engine<T, w, k, q, s> E;
    EngInfo i = base_info<E, T>(name, "lfsr"); i.range_words = (w + 31) / 32; i.hints = { 1, 2 }; i.word_bits = w;
    i.model = taus_model(w, k, q, s); (void)period; reg.push_back(i);
}
}
void reg_misc(Registry& reg) {
    typedef br::linear_feedback_shift_engine<std::uint32_t, 32, 31, 13, 12> T1; typedef br::linear_feedback_shift_engine<std::uint32_t, 32, 29, 2, 4> T2;
    lfsr<std::uint32_t, 32, 31, 13, 12>(reg, "lfsr_31_13_12");
    lfsr<std::uint32_t, 32, 29, 2, 4>(reg, "lfsr_29_2_4");
    lfsr<std::uint32_t, 32, 28, 3, 17>(reg, "lfsr_28_3_17");
    lfsr<std::uint64_t, 64, 63, 1, 10>(reg, "lfsr64_63_1_10");
    lfsr<std::uint64_t, 64, 55, 24, 5>(reg, "lfsr64_55_24_5");
    lfsr<std::uint64_t, 64, 41, 3, 23>(reg, "lfsr64_41_3_23");
    lfsr<std::uint64_t, 64, 31, 3, 17>(reg, "lfsr64_31_3_17");
    lfsr<std::uint32_t, 16, 15, 1, 4>(reg, "lfsr16_15_1_4");
    lfsr<std::uint32_t, 20, 17, 3, 6>(reg, "lfsr20_17_3_6");
    lfsr<std::uint64_t, 40, 39, 4, 20>(reg, "lfsr40_39_4_20");
    { EngInfo i = base_info<br::taus88, std::uint32_t>("taus88", "xor"); i.range_words = 3; i.hints = { 1, 2, 3 }; i.word_bits = 32; i.cost = 3;
      i.model = xor_model(xor_model(taus_model(32, 31, 13, 12), 0, taus_model(32, 29, 2, 4), 0, 32), 0, taus_model(32, 28, 3, 17), 0, 32); reg.push_back(i); }
    { typedef br::xor_combine_engine<T1, 0, T2, 0> E; EngInfo i = base_info<E, std::uint32_t>("xor_lfsr", "xor"); i.range_words = 2; i.hints = { 1, 2 }; i.cost = 2;
      i.model = xor_model(taus_model(32, 31, 13, 12), 0, taus_model(32, 29, 2, 4), 0, 32); reg.push_back(i); }
    { typedef br::linear_feedback_shift_engine<std::uint64_t, 64, 63, 1, 10> A; typedef br::linear_feedback_shift_engine<std::uint64_t, 64, 55, 24, 5> B;
      typedef br::xor_combine_engine<A, 3, B, 7> E; EngInfo i = base_info<E, std::uint64_t>("xor_lfsr64_shift", "xor"); i.range_words = 4; i.hints = { 1, 2 }; i.cost = 2;
      i.model = xor_model(taus_model(64, 63, 1, 10), 3, taus_model(64, 55, 24, 5), 7, 64); reg.push_back(i); }
    { EngInfo i = base_info<br::mixmax, std::uint64_t>("mixmax", "mixmax"); i.range_words = 4; i.hints = { 16, 32, 17 }; i.word_bits = 61; i.cost = 3;
      i.model = mixmax_model(); reg.push_back(i); }
    { EngInfo i = base_info<br::splitmix64, std::uint64_t>("splitmix64", "splitmix"); i.range_words = 0; i.hints = { 1, 2 }; i.word_bits = 64;
      i.model = split_model(); reg.push_back(i); }
}
}
