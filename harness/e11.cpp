// E11: real-valued engines are their integer recurrence scaled by a power of two.
#include "eng.hpp"
const char* pbt_rule = "a case counts as non-trivial when at least 10 values of a real-valued engine, after at least one skip, copy or save/restore in a generated history, were compared bit for bit with the integer recurrence; distinctness is over engine, seed and history";
namespace vf {
void reg_real0(Registry&); void reg_real1(Registry&); void reg_real2(Registry&);
static const Registry& reals() {
    static Registry r;
    if (r.empty()) { reg_real0(r); reg_real1(r); reg_real2(r); const Registry& a = registry(); for (std::size_t i = 0; i < a.size(); ++i) if (!a[i].integral && a[i].model) { r.push_back(a[i]); if (!r.back().word_bits) r.back().word_bits = 32; } }
    return r;
}
static void history(Ctx& c) {
    const EngInfo& e = reals()[c.enumerate(reals().size())];
    SeedSpec s = gen_seed(c, e); EngP p = make_engine(e, s); Seeder q = to_seeder(e, s); ModelP m(e.model(q, s.kind == S_DEFAULT));
    NOTE(c, e.name << " seeded by " << show(s)); u64 ops = 3 + c.s.choose(10), n = 0; bool mixed = false; const Val scale = std::ldexp((Val)1, e.word_bits);
    REQUIRE(c, p->mn() == 0 && p->mx() == 1, e.name << ": advertises [" << p->mn() << ", " << p->mx() << ")");
    for (u64 k = 0; k < ops; ++k) {
        u64 op = c.s.choose(6), z = c.s.count(e.hints, e.cost > 5 ? 60 : 300);
        switch (op) {
        case 0: NOTE(c, "discard " << z); p->discard(z); for (u64 i = 0; i < z; ++i) m->next(); mixed = true; break;
        case 1: { NOTE(c, "save and restore"); std::ostringstream o; if (c.s.coin()) o.precision(c.s.choose(8)); p->save(o); EngP r(make_engine(e, SeedSpec())); for (u64 i = 0; i < z % 7; ++i) r->draw(); std::istringstream in(o.str()); r->load(in); REQUIRE(c, !in.fail(), e.name << ": cannot read back its own state"); REQUIRE(c, r->eq(*p) && !r->ne(*p), e.name << ": differs after save and restore"); p = std::move(r); mixed = true; break; }
        case 2: { NOTE(c, "copy"); EngP r(p->clone()); p->draw(); p->assign(*r); mixed = true; break; }
        default: NOTE(c, "draw " << z);
            for (u64 i = 0; i < z; ++i, ++n) { Val v = p->draw(), w = m->next(); REQUIRE(c, v == w, e.name << " seeded by " << show(s) << ": value " << n << " is " << v << " = " << v * scale << "/2^" << e.word_bits << ", the recurrence gives " << w * scale << "/2^" << e.word_bits); REQUIRE(c, v >= 0 && v < 1 && std::floor(v * scale) == v * scale, e.name << ": value " << v << " is not a multiple of 2^-" << e.word_bits << " in [0,1)"); }
        }
    }
    // the same position reached by one skip from a fresh engine
    c.label(e.family); c.label(e.digits <= 24 ? "float" : e.digits <= 53 ? "double" : "long double"); if (n >= 10 && mixed) c.nontrivial();
}
// any two routes to one position are the same state, one position apart they are not
static void routes(Ctx& c) {
    const EngInfo& e = reals()[c.enumerate(reals().size())]; if (e.word_bits < 8) return;
    SeedSpec s; s.kind = S_VALUE; s.value = c.s.special(0xffffffffu); EngP a = make_engine(e, s), b(a->clone()); u64 n = c.s.count(e.hints, e.cost > 5 ? 200 : 1500), k = n ? c.s.choose(n) : 0;
    NOTE(c, e.name << " seeded by " << show(s) << ": " << n << " calls, and discard " << k << " + discard " << n - k);
    for (u64 i = 0; i < n; ++i) a->draw(); b->discard(k); b->discard(n - k);
    REQUIRE(c, a->eq(*b) && !a->ne(*b), e.name << ": " << n << " calls and discarding " << k << " and " << n - k << " leave unequal engines"); same_future(c, e, *a, *b, future_len(e) < 700 ? future_len(e) : 700, e.name);
    c.label(e.family); c.nontrivial(n > 10);
}
}
namespace pbt { void register_checks() {
    add("history", 30000, 600000, vf::history);
    add("routes", 12000, 300000, vf::routes);
} }
