#include "ureal.hpp"
namespace vf { void ureal_b(UReals& v) { add_real_type<double>(v, "double"); } }
