#include "i01_draw.hpp"
namespace vf {
Shape shape0() { return { "32 bits", 0xffffffffu, { VF_ST(u32, 0u, 0xffffffffu), VF_ST(u64, 0u, 0xffffffffu), VF_ST(i64, -5, 0xfffffffa), VF_ST(i32, -2147483647 - 1, 2147483647), VF_RT(u32, 0u, 0xffffffffu), VF_NC(u32, 0u, 0xffffffffu), VF_SH(u32, 0u, 0xffffffffu) } }; }
}
