#include "uint.hpp"
namespace vf { void uint_b(UInts& v) { add_type<short>(v, "short"); add_type<int>(v, "int"); } }
