#include "uint.hpp"
namespace vf { void uint_a(UInts& v) { add_type<signed char>(v, "signed char"); add_type<u16>(v, "u16"); } }
