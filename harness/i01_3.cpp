#include "i01_draw.hpp"
namespace vf {
Shape shape3() { return { "64 bits", ~0ull, { VF_ST(u64, 0u, ~0ull), VF_ST(i64, -9223372036854775807ll - 1, 9223372036854775807ll), VF_ST(unsigned long long, 0u, ~0ull), VF_RT(u64, 0u, ~0ull) } }; }
Shape shape4() { return { "[0, 5]", 5, { VF_ST(u32, 0u, 5u), VF_ST(u8, 1, 6), VF_ST(short, -3, 2), VF_RT(long, 1, 5) } }; }
}
