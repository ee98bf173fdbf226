// L01: code written for the old names gets the engines of the new ones.
#include "l01.hpp"
using namespace vf;
const char* pbt_rule = "every case is a history of operations on a legacy engine and its modern counterpart";
static void c_history(Ctx& c) {
    static std::vector<Pair> v; if (v.empty()) { l01_a(v); l01_b(v); }
    const Pair& p = v[c.s.choose(v.size() - 1)]; c.label(p.name); c.nontrivial(); std::string e = p.run(c); REQUIRE(c, e.empty(), std::string(p.name) + " against its modern counterpart: " + e);
}
namespace pbt { void register_checks() { add("history", 400000, 8000000, c_history); } }
