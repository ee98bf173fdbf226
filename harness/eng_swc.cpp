#include "eng.hpp"
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/ranlux.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class E, class S> EngInfo& put(Registry& reg, const char* name, int w, int s, int r, bool real) {
    EngInfo i = base_info<E, S>(name, real ? "swc01" : "swc");
    i.range_words = (w + 31) / 32 * r; i.hints = { (u64)r, (u64)s, (u64)(r - s), (u64)(2 * r) };
    i.model = swc_model(w, s, r, real); i.word_bits = w; reg.push_back(i); return reg.back();
}
template<class E, class S> void db(Registry& reg, const char* name, int w, int s, int r, bool real, std::size_t P, std::size_t R) {
    EngInfo& i = put<E, S>(reg, name, w, s, r, real); i.family = real ? "ranlux01" : "ranlux";
    i.model = db_model(i.model, P, R); i.hints.push_back(R); i.hints.push_back(2 * R); i.cost = P / R + 1;
}
}
#define SWC(T, w, s, r, name) put<br::subtract_with_carry_engine<T, w, s, r>, T>(reg, name, w, s, r, false)
#define SWR(T, w, s, r, name) put<br::subtract_with_carry_01_engine<T, w, s, r>, std::uint32_t>(reg, name, w, s, r, true)
void reg_swc(Registry& reg) {
    put<br::ranlux24_base, std::uint32_t>(reg, "ranlux24_base", 24, 10, 24, false);
    put<br::ranlux48_base, std::uint64_t>(reg, "ranlux48_base", 48, 5, 12, false);
    put<br::ranlux64_base, std::uint64_t>(reg, "ranlux64_base", 48, 10, 24, false);
    SWC(std::uint32_t, 31, 7, 11, "swc_31_7_11");
    SWC(std::uint64_t, 32, 3, 8, "swc_32_3_8");
    SWC(std::uint64_t, 63, 2, 5, "swc_63_2_5");
    SWC(std::uint32_t, 8, 1, 3, "swc_8_1_3");
    SWC(std::int32_t, 24, 10, 24, "swc_i32_24");
    SWC(std::uint64_t, 5, 3, 4, "swc_5_3_4");
    SWC(std::uint32_t, 4, 1, 2, "swc_4_1_2");
    SWR(float, 4, 1, 2, "swc01_4_1_2");
    put<br::ranlux_base_01, std::uint32_t>(reg, "ranlux_base_01", 24, 10, 24, true);
    put<br::ranlux64_base_01, std::uint32_t>(reg, "ranlux64_base_01", 48, 10, 24, true);
    SWR(double, 24, 10, 24, "swc01_d_24");
    SWR(long double, 63, 5, 12, "swc01_ld_63");
    SWR(double, 52, 3, 7, "swc01_d_52");
    SWR(float, 8, 2, 5, "swc01_f_8");
    SWR(double, 32, 1, 4, "swc01_d_32");
}
}
