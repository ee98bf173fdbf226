#include "i01_draw.hpp"
namespace vf {
Shape shape1() { return { "8 bits", 255, { VF_ST(u8, 0, 255), VF_ST(u32, 1000, 1255), VF_ST(int, -128, 127), VF_ST(u64, 0, 255), VF_RT(u16, 300, 255) } }; }
Shape shape5() { return { "32-bit reals", 0xffffffffu, { VF_RR(double, 32, 0, 1), VF_RR(double, 32, -4, 4), VF_RR(double, 32, 16, 18) }, true }; }
}
