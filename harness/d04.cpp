// D04: values are possible and always arrive.
#include "dist.hpp"
const char* pbt_rule = "a case counts as non-trivial when the distribution has generated parameters and its engine follows a script with extreme, repeated or targeted values; distinctness is over distribution, parameters, engine and script";
namespace vf {
static std::string name(const IDist& d, const P& p, int eng) { std::ostringstream o; o.precision(21); o << d.name << p << " over a " << d.engine(eng); return o.str(); }
static void note_script(Ctx& c, const ScriptP& s) { if (c.verbose) for (std::size_t i = 0; i < s->head.size() && i < 30; ++i) c.text << "+" << s->head[i] << " "; }
static void run(Ctx& c, const IDist& d, const P& p, int eng, const ScriptP& s, std::size_t n) {
    std::string w = name(d, p, eng); NOTE(c, w); note_script(c, s); s->limit = 400000; std::vector<ld> o(n), q(n); u64 pos = 0, pos1 = 0;
    ObjP x(d.make(p)); REQUIRE(c, x->mn() <= x->mx(), w << ": min() > max()"); x->draw(eng, s, pos, o.data(), n); std::string why;
    for (std::size_t i = 0; i < n; ++i) { REQUIRE(c, possible(d, p, o[i], why), w << ": value " << i << " is " << o[i] << ", " << why); REQUIRE(c, o[i] >= x->mn() && o[i] <= x->mx(), w << ": value " << i << " is " << o[i] << ", not between min() " << x->mn() << " and max() " << x->mx()); }
    ObjP y(d.make_default()); ParamP pp(d.make_param(p)); y->draw1(eng, s, pos1, *pp, q.data(), n);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(c, possible(d, p, q[i], why), w << ": one-shot value " << i << " is " << q[i] << ", " << why);
    c.label(d.name); c.nontrivial(!s->head.empty());
}
static void any(Ctx& c) { const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1); ScriptP s = gen_script(c, d.maxoff(e), 40); run(c, d, p, e, s, 1 + c.s.choose(7)); }
// engine values that make the first uniform number fall on or next to a decision of the algorithm
static void decisions(Ctx& c) {
    const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1); ScriptP s = gen_script(c, d.maxoff(e), 6); ld R = (ld)d.maxoff(e) + 1; std::size_t at = c.s.choose(4);
    for (std::size_t k = 0; k < 1 + at; ++k) {
        ld f; switch (d.kind) {
        case TRIANGLE: f = p.v[2] > p.v[0] ? (p.v[1] - p.v[0]) / (p.v[2] - p.v[0]) : 0.5L; break;
        case BERNOULLI: f = p.v[0]; break;
        case GEOMETRIC: f = 1 - std::exp((ld)(1 + c.s.choose(5)) * log1pl(-p.v[0])); break;
        case GAMMA: case CHI2: case BETA: { ld a = d.kind == CHI2 ? p.v[0] / 2 : p.v[0]; f = c.s.coin() ? 2.718281828459045L / (a + 2.718281828459045L) : 0.5L; break; }
        case POISSON: case BINOMIAL: f = c.s.coin() ? 0.86L * (ld)c.s.u01() : (ld)c.s.choose(100) / 100; break;
        case DISCRETE: case PCONST: case PLINEAR: case HYPEREXP: f = (ld)(1 + c.s.choose(p.w.size())) / p.w.size(); break;
        default: f = (ld)c.s.choose(256) / 256; }
        ld v = std::floor(f * R) + (ld)c.s.irange(-2, 2); if (v < 0) v = 0; if (v > R - 1) v = R - 1; s->head.insert(s->head.begin() + c.s.choose(s->head.size()), (u64)v);
    }
    run(c, d, p, e, s, 1 + c.s.choose(3));
}
// every sequence of the first few extreme engine values
static void corners(Ctx& c) {
    const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1); u64 mo = d.maxoff(e); ScriptP s(new Script); s->tail = c.s.choose(~0ull); u64 set[6] = { 0, 1, mo, mo - 1, mo / 2, mo / 2 + 1 };
    std::size_t len = 1 + c.s.choose(5); for (std::size_t i = 0; i < len; ++i) s->head.push_back(set[c.s.choose(5)]); run(c, d, p, e, s, 1 + c.s.choose(2));
}
}
namespace pbt { void register_checks() {
    add("any", 500000, 4000000, vf::any);
    add("decisions", 250000, 2000000, vf::decisions);
    add("corners", 250000, 2000000, vf::corners);
} }
