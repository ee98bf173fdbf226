#include "ureal.hpp"
namespace vf { void ureal_c(UReals& v) { add_real_type<long double>(v, "long double"); } }
