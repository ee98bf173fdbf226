// I01: engines and distributions from elsewhere work with the library's as its own do.
#include "i01.hpp"
using namespace vf;
const char* pbt_rule = "a case draws at least two values";
namespace {
bool same_value(ld a, ld b) { return a == b || (a != a && b != b); }
std::string diff(const std::vector<ld>& a, const std::vector<ld>& b) {
    std::ostringstream os; os.precision(21);
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) if (!same_value(a[i], b[i])) { os << "value " << i << " is " << b[i] << ", not " << a[i]; return os.str(); }
    if (a.size() != b.size()) os << b.size() << " values, not " << a.size(); return os.str();
}
const std::vector<Shape>& shapes() { static std::vector<Shape> v; if (v.empty()) { v.push_back(shape0()); v.push_back(shape1()); v.push_back(shape2()); v.push_back(shape3()); v.push_back(shape4()); v.push_back(shape5()); } return v; }
// the same offsets from the minimum, delivered as another type, from another minimum or by another kind of class, give the same results at the same cost
void c_shapes(Ctx& c) {
    const Shape& s = shapes()[c.s.choose(shapes().size() - 1)]; const Draw d = gen_draw(c); std::size_t n = 1 + c.s.choose(8); ScriptP sc = gen_script(c, s.maxoff); sc->limit = 4000000;
    c.label(s.name); c.label(kname(d.kind)); if (n > 1) c.nontrivial();
    if (s.reals && (d.kind == K_CANON || d.kind == K_CANON_F)) return;   // asserts a range of [0, 1)
    std::vector<ld> ref; u64 pos0 = 0; sc->calls = 0; s.v[0].run(d, sc, pos0, ref, n);
    for (std::size_t i = 1; i < s.v.size(); ++i) {
        std::vector<ld> o; u64 pos = 0; sc->calls = 0; s.v[i].run(d, sc, pos, o, n); std::string e = diff(ref, o);
        REQUIRE(c, e.empty(), show(d) + ": the engine " + s.v[i].name + " delivers the same offsets as " + s.v[0].name + ", but " + e);
        REQUIRE(c, pos == pos0, show(d) + ": " + str(pos) + " calls of the engine " + s.v[i].name + ", but " + str(pos0) + " of " + s.v[0].name);
    }
}
void c_pairs(Ctx& c) {
    static std::vector<Pair> v; if (v.empty()) { v = pairs_a(); for (const Pair& p : pairs_b()) v.push_back(p); }
    const Pair& p = v[c.s.choose(v.size() - 1)]; const Draw d = gen_draw(c); std::size_t n = 1 + c.s.choose(8); u64 seed = c.s.special(0xffffffffu), skip = c.s.choose(1000); c.label(p.name); c.label(kname(d.kind)); if (n > 1) c.nontrivial();
    std::vector<ld> a, b; bool same; p.run(d, seed, skip, a, b, n, same); std::string e = diff(a, b);
    REQUIRE(c, e.empty(), show(d) + " over std::" + p.name + " seeded with " + str(seed) + ", " + str(skip) + " values in: " + e + " as over boost::random::" + p.name);
    REQUIRE(c, same, show(d) + " over std::" + p.name + " seeded with " + str(seed) + ", " + str(skip) + " values in: the engine is left elsewhere than boost::random::" + p.name);
}
}
void std_over_boost(Ctx& c); void std_adaptors(Ctx& c); void boost_adaptors(Ctx& c); void seed_sequences(Ctx& c);
namespace pbt { void register_checks() {
    add("shapes", 300000, 6000000, c_shapes); add("pairs", 150000, 3000000, c_pairs);
    add("std_over_boost", 60000, 1500000, std_over_boost); add("std_adaptors", 30000, 600000, std_adaptors); add("boost_adaptors", 30000, 600000, boost_adaptors); add("seed_sequences", 30000, 600000, seed_sequences);
} }
