#include "i01_draw.hpp"
#include <random>
namespace vf {
std::vector<Pair> pairs_a() { return { VF_PAIR("mt19937", br::mt19937, std::mt19937), VF_PAIR("mt19937_64", br::mt19937_64, std::mt19937_64), VF_PAIR("minstd_rand0", br::minstd_rand0, std::minstd_rand0) }; }
std::vector<Pair> pairs_b() { return { VF_PAIR("ranlux24_base", br::ranlux24_base, std::ranlux24_base), VF_PAIR("ranlux48_base", br::ranlux48_base, std::ranlux48_base), VF_PAIR("ranlux24", br::ranlux24, std::ranlux24), VF_PAIR("knuth_b", br::knuth_b, std::knuth_b) }; }
}
