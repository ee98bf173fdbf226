#include "eng.hpp"
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/ranlux.hpp>
namespace vf {
namespace br = boost::random;
namespace {
template<class E, class S> EngInfo& put(Registry& reg, const char* name, int w, int s, int r, bool real) {
    EngInfo i = base_info<E, S>(name, real ? "swc01" : "swc");
    i.range_words = (w + 31) / 32 * r; i.hints = { (u64)r, (u64)s, (u64)(r - s), (u64)(2 * r) };
    i.model = swc_model(w, s, r, real); i.word_bits = w; reg.push_back(i); return reg.back();
}
template<class E, class S> void db(Registry& reg, const char* name, int w, int s, int r, bool real, std::size_t P, std::size_t R) {
    EngInfo& i = put<E, S>(reg, name, w, s, r, real); i.family = real ? "ranlux01" : "ranlux";
    i.model = db_model(i.model, P, R); i.hints.push_back(R); i.hints.push_back(2 * R); i.cost = P / R + 1;
}
}
#define SWC(T, w, s, r, name) put<br::subtract_with_carry_engine<T, w, s, r>, T>(reg, name, w, s, r, false)
#define SWR(T, w, s, r, name) put<br::subtract_with_carry_01_engine<T, w, s, r>, std::uint32_t>(reg, name, w, s, r, true)
void reg_ranlux(Registry& reg) {
    db<br::ranlux24, std::uint32_t>(reg, "ranlux24", 24, 10, 24, false, 223, 23);
    db<br::ranlux48, std::uint64_t>(reg, "ranlux48", 48, 5, 12, false, 389, 11);
    db<br::ranlux3, std::uint32_t>(reg, "ranlux3", 24, 10, 24, false, 223, 24);
    db<br::ranlux4, std::uint32_t>(reg, "ranlux4", 24, 10, 24, false, 389, 24);
    db<br::ranlux64_3, std::uint64_t>(reg, "ranlux64_3", 48, 10, 24, false, 223, 24);
    db<br::ranlux64_4, std::uint64_t>(reg, "ranlux64_4", 48, 10, 24, false, 389, 24);
    db<br::ranlux3_01, std::uint32_t>(reg, "ranlux3_01", 24, 10, 24, true, 223, 24);
    db<br::ranlux4_01, std::uint32_t>(reg, "ranlux4_01", 24, 10, 24, true, 389, 24);
    db<br::ranlux64_3_01, std::uint32_t>(reg, "ranlux64_3_01", 48, 10, 24, true, 223, 24);
    db<br::ranlux64_4_01, std::uint32_t>(reg, "ranlux64_4_01", 48, 10, 24, true, 389, 24);
}
}
