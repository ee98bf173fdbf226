#include "uint.hpp"
namespace vf { void uint_d(UInts& v) { add_type<unsigned long long>(v, "unsigned long long"); add_type<long long>(v, "long long"); } }
