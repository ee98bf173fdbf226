// All distributions.
#include "dist.hpp"
namespace vf {
void dist_a1(Dists&), dist_a2(Dists&), dist_a3(Dists&), dist_b1(Dists&), dist_b2(Dists&), dist_c1(Dists&), dist_c2(Dists&), dist_d1(Dists&), dist_d2(Dists&), dist_e1(Dists&), dist_e2(Dists&), dist_u(Dists&), dist_w1(Dists&), dist_w2(Dists&), dist_w3(Dists&);
const Dists& dists() { static Dists v; if (v.empty()) { dist_a1(v); dist_a2(v); dist_a3(v); dist_b1(v); dist_b2(v); dist_c1(v); dist_c2(v); dist_d1(v); dist_d2(v); dist_e1(v); dist_e2(v); dist_u(v); dist_w1(v); dist_w2(v); dist_w3(v); } return v; }
}
