#include "i01_draw.hpp"
namespace vf {
Shape shape2() { return { "[0, 2^31-3]", 2147483645u, { VF_ST(u32, 0u, 2147483645u), VF_ST(u32, 1u, 2147483646u), VF_ST(i64, 1, 2147483646), VF_ST(i32, -1073741824, 1073741821), VF_RT(u64, 77u, 2147483645u) } }; }
}
