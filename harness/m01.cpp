// M01: distributions of software floats, next to the same ones of built-in types.
#include "m01.hpp"
#include "law.hpp"
const char* pbt_rule = "a case counts as non-trivial when at least four values were compared with those of the built-in type, at least 10,000 values with the distribution function, a text was read back, or at least one word of more than 64 bits or one real of more than 64 digits was compared with the model; distinctness is over distribution or engine, number types, parameters, engine values and history";
namespace vf {
static const Sames& sames() { static Sames v; if (v.empty()) { m01_a(v); m01_b(v); m01_c(v); m01_d(v); m01_e(v); } return v; }
static std::string name(const IDist& d, const P& p, int e) { std::ostringstream o; o.precision(21); o << d.name << p << " over a " << d.engine(e); return o.str(); }
static const Same& pick(Ctx& c) { return sames()[c.enumerate(sames().size())]; }
static bool near(const Same& s, const P& p, ld x, ld y, ld size) { if (x == y) return true; if (s.hard->kind == CAUCHY && p.v[1] > 0) { ld k = std::fabs(x - p.v[0]) / p.v[1]; size += k * std::fabs(x - p.v[0]); } ld e = std::max(s.hard->eps, s.soft->eps) * (s.big ? 1 : 1), t = std::max(std::fabs(x), std::fabs(y)); return std::fabs(x - y) <= 256 * e * std::max(t, size) || (t <= s.soft->tiny * 4); }
// the conversion of 64-bit integers to 53 bits rounds differently
static bool exact(const Same& s, int e) { return s.exact && !(e == 1 && s.soft->digits < 64); }
// positions after every value, values
static bool agree(const Same& s, const P& p, int e, const ScriptP& sc, std::size_t n, std::string& why, std::size_t& compared) {
    ObjP x(s.hard->make(p)), y(s.soft->make(p)); u64 a = 0, b = 0; ld size = 0; if (s.hard->kind != GAMMA && s.hard->kind != WEIBULL) for (ld t : p.b) size = std::max(size, std::fabs(t)); for (ld t : p.v) size = std::max(size, s.hard->kind == NORMAL || s.hard->kind == CAUCHY || s.hard->kind == EXTREME || s.hard->kind == LAPLACE || s.hard->kind == TRIANGLE || s.hard->kind == UNIFORM_REAL ? std::fabs(t) : 0.0L);
    for (std::size_t i = 0; i < n; ++i) { ld u, v; x->draw(e, sc, a, &u, 1); y->draw(e, sc, b, &v, 1); std::ostringstream o; o.precision(21); o << s.hard->name << " gives " << u << " after " << a << " engine values, " << s.soft->name << " gives " << v << " after " << b << " (value " << i << ")"; why = o.str(); if (a != b || (exact(s, e) ? u != v : !near(s, p, u, v, size))) return false; ++compared; }
    return true;
}
// a wider type takes more bits from the engine for the ziggurat tables, and it decides otherwise between equal weights: other values
static bool unlike(Kind k) { return k == PCONST || k == PLINEAR || k == DISCRETE || k == NORMAL || k == LOGNORMAL || k == EXPONENTIAL || k == GAMMA || k == CHI2 || k == STUDENT || k == BETA || k == FISHER || k == LAPLACE || k == GEOMETRIC; }
static void same(Ctx& c) {
    static std::vector<const Same*> v; if (v.empty()) for (const Same& s : sames()) if (!s.big || !unlike(s.hard->kind)) v.push_back(&s);
    const Same& s = *v[c.enumerate(v.size())]; P p = gen_params(c, *s.soft, false); int e = (int)c.s.choose(3); std::string w = name(*s.soft, p, e), why; NOTE(c, w); std::size_t n = 4 + c.s.choose(8), done = 0; u64 seed = c.s.choose(~0ull); int bad = 0, runs = 0; std::string first;
    for (int k = 0; k < 9; ++k) { ScriptP sc(new Script); sc->tail = seed + k * 7919; sc->limit = 100000; ++runs; if (!agree(s, p, e, sc, n, why, done)) { ++bad; if (first.empty()) first = why; if (exact(s, e)) break; } else if (k == 0 && bad == 0) break; }
    REQUIRE(c, exact(s, e) ? bad == 0 : bad * 3 < 9, w << ": " << first); if (bad) c.label(s.soft->name + " rounding"); c.label(s.soft->name); c.evals += done; c.nontrivial(done >= 4);
}
struct Drawn { std::vector<ld> v; u64 pos; bool operator==(const Drawn& o) const { return pos == o.pos && v == o.v; } };
static Drawn draw(IObj& x, int e, const ScriptP& s, std::size_t n) { Drawn r; r.pos = 0; r.v.resize(n); s->limit = 400000 + s->calls; x.draw(e, s, r.pos, r.v.data(), n); for (ld& t : r.v) if (t != t) t = -12345; return r; }
static std::string show(const Drawn& d) { std::ostringstream o; o.precision(21); for (ld x : d.v) o << x << " "; o << "(" << d.pos << " engine values)"; return o.str(); }
// every value is possible, whatever the engine returns
static bool can(const IDist& d, const P& p, ld x, std::string& why) {
    if (d.kind == LOGNORMAL && p.v[1] == 0) { ld e = std::exp(p.v[0]); why = "outside the support"; return !(e < d.huge / 2 && e > d.tiny / d.eps * 4) || std::fabs(x - e) <= e * d.eps * 64 * (1 + std::fabs(p.v[0])); }
    return possible(d, p, x, why);
}
static void support(Ctx& c) {
    const Same& s = pick(c); const IDist& d = *s.soft; P p = gen_params(c, d, c.s.coin()); int e = (int)c.s.choose(3); std::string w = name(d, p, e), why; NOTE(c, w); ScriptP sc = gen_script(c, d.maxoff(e), 30); sc->limit = 400000; std::size_t n = 1 + c.s.choose(5); std::vector<ld> v(n), q(n); u64 pos = 0, pos1 = 0; ObjP x(d.make(p));
    x->draw(e, sc, pos, v.data(), n); for (ld t : v) REQUIRE(c, can(d, p, t, why), w << ": returns " << t << ", " << why); ObjP y(d.make_default()); ParamP pp(d.make_param(p)); y->draw1(e, sc, pos1, *pp, q.data(), n); for (ld t : q) REQUIRE(c, can(d, p, t, why), w << ": a one-shot value is " << t << ", " << why); c.label(d.name); c.nontrivial(n >= 4);
}
// values, parameters, copies, assignment, text
static bool soft(const IDist& d) { return d.kind == DISCRETE || d.kind == PCONST; }
static bool close_to(const IDist& d, const P& a, const P& b) { if (a.v != b.v || a.b != b.b || a.w.size() != b.w.size()) return false; for (std::size_t i = 0; i < a.w.size(); ++i) if (!(std::fabs(a.w[i] - b.w[i]) <= d.eps * 32 * (a.w.size() + 2) * std::max(a.w[i], b.w[i]))) return false; return true; }
static void routes(Ctx& c) {
    const IDist& d = *pick(c).soft; P p = gen_params(c, d, false), o = gen_params(c, d, false); int e = (int)c.s.choose(3), r = (int)c.s.choose(5); static const char* const HOW[] = { "from another constructor", "from parameters", "after assigning parameters", "restored from text", "from restored parameters", "a copy of a copy" }; bool text = r == 3 || r == 4; std::string w = name(d, p, e) + ", " + HOW[r]; NOTE(c, w); ScriptP s = gen_script(c, d.maxoff(e), 8), t = gen_script(c, d.maxoff(e), 8); std::size_t used = c.s.choose(3), n = 4;
    ObjP x(d.make(p)), y; ParamP pp(d.make_param(p, (int)c.s.choose(d.routes() - 1))); int digits = d.io_digits + (int)c.s.choose(3);
    switch (r) { case 0: y.reset(d.make(p, (int)c.s.choose(d.routes() - 1))); break; case 1: y.reset(d.make_from(*pp)); break; case 2: y.reset(d.make(o)); draw(*y, e, t, used); y->param(*pp); y->reset(); break;
    case 3: { y.reset(c.s.coin() ? d.make(o) : d.make_default()); std::stringstream ss; ss.precision(digits); x->write(ss); ss << " tail"; y->read(ss); std::string rest; REQUIRE(c, !ss.fail(), w << ": reading \"" << ss.str() << "\" fails"); ss >> rest; REQUIRE(c, rest == "tail", w << ": after reading \"" << ss.str() << "\" the stream continues with \"" << rest << "\""); break; }
    case 4: { ParamP q(c.s.coin() ? d.make_param(o) : d.param_default()); std::stringstream ss; ss.precision(digits); pp->write(ss); q->read(ss); REQUIRE(c, !ss.fail(), w << ": reading \"" << ss.str() << "\" fails"); if (!soft(d)) REQUIRE(c, q->eq(*pp), w << ": the restored parameters are not equal"); y.reset(d.make_from(*q)); break; }
    default: { y.reset(d.make(o)); draw(*y, e, t, used); y->assign(*x); y.reset(y->clone()); } }
    P g = x->get(), h = y->get(); if (!g.v.empty() && p.w.empty()) REQUIRE(c, g == p, w << ": reports " << g); bool eq = x->eq(*y); REQUIRE(c, y->eq(*x) == eq && x->ne(*y) == !eq, w << ": == and != disagree");
    if (soft(d) && !eq && (text || r == 1 || r == 2 || r == 0)) { REQUIRE(c, close_to(d, g, h), w << ": reports " << h << ", was " << g); c.label("renormalised"); return; }
    REQUIRE(c, eq, w << ": not equal to the one made from values"); REQUIRE(c, g == h, w << ": reports " << h << ", the one made from values " << g); Drawn a = draw(*x, e, s, n), b = draw(*y, e, s, n); REQUIRE(c, a == b, w << ": returns " << show(b) << ", the one made from values " << show(a)); x->reset(); y.reset(d.make(o)); std::vector<ld> v(n); u64 pos = 0, pos2 = 0; if (d.kind != NORMAL && d.kind != LOGNORMAL) { std::vector<ld> v2(n); y->draw1(e, s, pos, *pp, v.data(), n); ObjP z(d.make_default()); z->draw1(e, s, pos2, *pp, v2.data(), n); for (ld& k : v) if (k != k) k = 0; for (ld& k : v2) if (k != k) k = 0; REQUIRE(c, v == v2 && pos == pos2, w << ": one-shot values depend on the distribution they are drawn through"); }
    c.label(d.name); c.label(HOW[r]); c.nontrivial();
}
static void law(Ctx& c) {
    const IDist& d = *pick(c).soft; P p = gen_params(c, d, false); int e = c.s.coin() ? 0 : 1 + 2 * (int)c.s.choose(1); std::size_t N = c.thorough ? 100000 : 10000; bool once = c.s.chance(1, 3), count = !d.real_result; std::string w = name(d, p, e) + (once ? ", one-shot parameters" : ""); NOTE(c, w); ScriptP s(new Script); s->tail = c.s.choose(~0ull); s->limit = ~0ull; u64 pos = 0; ObjP x(once ? d.make_default() : d.make(p)); ParamP q(d.make_param(p)); std::vector<ld> v(2000);
    auto take = [&](std::vector<ld>& o) { if (once) x->draw1(e, s, pos, *q, o.data(), o.size()); else x->draw(e, s, pos, o.data(), o.size()); };
    take(v); Law l; l.cells(v, [&](ld t) { return count ? cdf_int(d, p, t) : cdf(d, p, t); }, [&](ld t) { return count ? 0 : slack_of(d, p, t); }, (double)N, count); v.resize(N); take(v); l.take(v.data(), N); l.judge(c, w); c.label(d.name); c.nontrivial();
}
void m01_realbase(Ctx&), m01_bits(Ctx&), m01_offsets(Ctx&), m01_uniform(Ctx&), m01_engines(Ctx&), m01_twins(Ctx&), m01_canonical(Ctx&);
}
namespace pbt { void register_checks() {
    add("same", 150000, 1500000, vf::same);
    add("support", 60000, 600000, vf::support);
    add("routes", 40000, 400000, vf::routes);
    add("law", 150, 1500, vf::law);
    add("bits", 60000, 600000, vf::m01_bits);
    add("offsets", 60000, 600000, vf::m01_offsets);
    add("uniform", 400, 4000, vf::m01_uniform);
    add("engines", 6000, 60000, vf::m01_engines);
    add("twins", 6000, 60000, vf::m01_twins);
    add("canonical", 60000, 600000, vf::m01_canonical);
    add("realbase", 200000, 2000000, vf::m01_realbase);
} }
