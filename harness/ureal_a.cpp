#include "ureal.hpp"
namespace vf { void ureal_a(UReals& v) { add_real_type<float>(v, "float"); } }
