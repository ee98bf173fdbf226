#include "uint.hpp"
namespace vf { void uint_c(UInts& v) { add_type<unsigned>(v, "unsigned"); add_type<long>(v, "long"); } }
