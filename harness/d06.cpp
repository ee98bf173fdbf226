// D06: counting distributions have their probability mass at every point.
#include "law.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
const char* pbt_rule = "a case counts as non-trivial when at least 15,000 values (or every value of the engine) were compared with the probabilities and more than one result has positive probability; distinctness is over distribution, parameters, engine and script";
namespace vf {
static const std::vector<const IDist*>& counting() { static std::vector<const IDist*> v; if (v.empty()) for (const IDist* d : dists()) if (d->kind >= BERNOULLI && d->kind <= POISSON) v.push_back(d); return v; }
static std::string name(const IDist& d, const P& p, int eng) { std::ostringstream o; o.precision(21); o << d.name << p << " over a " << d.engine(eng); return o.str(); }
static bool wide_engine(const IDist& d, int e) { return d.maxoff(e) >= 0x7ffffff0u; }
// 1 - p is rounded before it is raised to the power t
static double rounding(const IDist& d, const P& p) { return d.kind == BINOMIAL ? (double)(d.eps * p.v[0]) : 0; }
static void check(Ctx& c, const IDist& d, const P& p, int e, std::size_t first, std::size_t N) {
    std::string w = name(d, p, e); NOTE(c, w); ScriptP s(new Script); s->tail = c.s.choose(~0ull); u64 pos = 0; ObjP x(d.make(p)); std::vector<ld> v(first); x->draw(e, s, pos, v.data(), first);
    Law l; l.cells(v, [&](ld t) { return cdf_int(d, p, t); }, [&](ld) { return rounding(d, p); }, (double)N, true); std::size_t cells = l.cut.size(); v.resize(std::min<std::size_t>(N, 20000));
    for (std::size_t k = 0; k < N; k += v.size()) { x->draw(e, s, pos, v.data(), v.size()); l.take(v.data(), v.size()); }
    l.judge(c, w); c.label(d.name); c.label(cells < 1 ? "one cell" : cells < 10 ? "few cells" : "cells"); c.nontrivial(cells >= 1);
}
static void law(Ctx& c) { const IDist& d = *counting()[c.enumerate(counting().size())]; P p = gen_params(c, d, false); int e = (int)c.s.choose(d.nengines - 1); if (d.maxoff(e) < 60000) e = 0; check(c, d, p, e, 2000, 20000); }
static void deep(Ctx& c) { const IDist& d = *counting()[c.enumerate(counting().size())]; P p = gen_params(c, d, false); int e = (int)c.s.choose(d.nengines - 1); if (!wide_engine(d, e)) e = (int)c.s.choose(1); check(c, d, p, e, 20000, c.thorough ? 4000000 : 400000); }
// one engine value per result: all 65536 of them
static void inverse(Ctx& c) {
    const IDist& d = *counting()[c.enumerate(counting().size())]; P p = gen_params(c, d, false); std::string w = name(d, p, 2) + ", every engine value"; NOTE(c, w);
    ObjP x(d.make(p)); ScriptP s(new Script); s->head.resize(65536); for (std::size_t i = 0; i < 65536; ++i) s->head[i] = i; std::map<ld, u64> n; bool one = true;
    for (std::size_t i = 0; i < 65536 && one; ++i) { u64 at = i; ld v; x->draw(2, s, at, &v, 1); ++n[v]; one = at == i + 1; }
    c.label(one ? d.name : "more than one engine value"); if (!one) return; double cum = 0, tol = 2.01 + 65536 * ((double)d.eps * 400 + rounding(d, p));
    for (auto& q : n) { cum += (double)q.second; double e = cdf_int(d, p, q.first) * 65536; REQUIRE(c, std::fabs(cum - e) <= tol, w << ": " << cum << " of 65536 values are at most " << q.first << ", " << e << " expected"); }
    c.nontrivial(n.size() > 1);
}
// Bernoulli trials: every value of a narrow engine, the turning point of a wide one
static void trial(Ctx& c) {
    static std::vector<const IDist*> v; if (v.empty()) for (const IDist* d : counting()) if (d->kind == BERNOULLI) v.push_back(d);
    const IDist& d = *v[c.enumerate(v.size())]; P p = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1); u64 mo = d.maxoff(e); ld R = (ld)mo + 1; if (c.s.chance(1, 3)) { ld q = (ld)(1 + c.s.choose(mo - 1)) / R + (ld)c.s.irange(-2, 2) * d.eps; q = d.digits == 24 ? (ld)(float)q : d.digits == 53 ? (ld)(double)q : q; if (q >= 0 && q <= 1) p = P(q); }
    std::string w = name(d, p, e); NOTE(c, w); ObjP x(d.make(p)); ScriptP s(new Script);
    auto hit = [&](u64 i) { s->head.assign(1, i); u64 pos = 0; ld r; x->draw(e, s, pos, &r, 1); REQUIRE(c, r == 0 || r == 1, w << ": " << r); if (p.v[0] > 0 && p.v[0] < 1) REQUIRE(c, pos == 1, w << ": " << pos << " engine values used"); return r == 1; };
    ld n = 0; if (mo < 65536) { for (u64 i = 0; i <= mo; ++i) n += hit(i); c.label("every engine value"); }
    else {
        bool f0 = hit(0), f1 = hit(mo); u64 lo = 0, hi = mo; if (f0 == f1) { for (int i = 0; i < 64; ++i) if (hit(c.s.choose(mo)) != f0) { c.label("no single turning point"); return; } n = f0 ? R : 0; }
        else { while (hi - lo > 1) { u64 m = lo + (hi - lo) / 2; if (hit(m) == f0) lo = m; else hi = m; } for (int i = 0; i < 64; ++i) { u64 at = c.s.choose(mo); if (hit(at) != (at <= lo ? f0 : f1)) { c.label("no single turning point"); return; } } n = f0 ? (ld)lo + 1 : R - ((ld)lo + 1); }
        c.label("turning point");
    }
    if (p.v[0] == 0) REQUIRE(c, n == 0, w << ": succeeds for " << n << " engine values"); if (p.v[0] == 1) REQUIRE(c, n == R, w << ": fails for " << (R - n) << " engine values");
    REQUIRE(c, std::fabs(n - p.v[0] * R) <= 1 + R * d.eps * 2, w << ": " << n << " of " << R << " engine values succeed, " << p.v[0] * R << " expected"); c.nontrivial(p.v[0] > 0 && p.v[0] < 1);
}
// the engines of the library
template<class G, class D> static void libD(Ctx& c, const std::string& n, G& g, D d, Kind k, const P& p) {
    const IDist* id = 0; for (const IDist* x : counting()) if (x->kind == k) { id = x; break; }
    std::ostringstream o; o << n << p; std::string w = o.str(); NOTE(c, w); std::vector<ld> v(5000); for (ld& x : v) x = (ld)d(g); Law l; std::size_t N = 100000; l.cells(v, [&](ld t) { return cdf_int(*id, p, t); }, [](ld) { return 0.0; }, (double)N, true); v.resize(N); for (ld& x : v) x = (ld)d(g); l.take(v.data(), N); l.judge(c, w); c.nontrivial(l.cut.size() >= 1);
}
template<class G> static void libT(Ctx& c, const char* n) {
    namespace br = boost::random; G g((u32)(1 + c.s.choose(2000000000))); double q = (1 + c.s.choose(98)) / 100.0; std::string w = std::string(" over ") + n; c.label(n);
    switch (c.s.choose(5)) {
    case 0: libD(c, "bernoulli" + w, g, br::bernoulli_distribution<>(q), BERNOULLI, P(q)); break; case 1: libD(c, "geometric" + w, g, br::geometric_distribution<>(q), GEOMETRIC, P(q)); break;
    case 2: { int t = (int)c.s.choose(300); libD(c, "binomial" + w, g, br::binomial_distribution<>(t, q), BINOMIAL, P(t, q)); break; } case 3: { int k = 1 + (int)c.s.choose(30); libD(c, "negative_binomial" + w, g, br::negative_binomial_distribution<>(k, q), NEGBINOMIAL, P(k, q)); break; }
    default: { double m = 0.5 * (1 + c.s.choose(60)); libD(c, "poisson" + w, g, br::poisson_distribution<>(m), POISSON, P(m)); } }
}
static void library(Ctx& c) {
    namespace br = boost::random;
    switch (c.enumerate(7)) { case 0: libT<br::mt19937>(c, "mt19937"); break; case 1: libT<br::mt19937_64>(c, "mt19937_64"); break; case 2: libT<br::lagged_fibonacci607>(c, "lagged_fibonacci607"); break; case 3: libT<br::ranlux64_4_01>(c, "ranlux64_4_01"); break; case 4: libT<br::minstd_rand>(c, "minstd_rand"); break; case 5: libT<br::rand48>(c, "rand48"); break; default: libT<br::mixmax>(c, "mixmax"); }
}
// long runs where the algorithms use tables, squeezes and corrections that matter for a few results only
template<class D> static void longrun(Ctx& c, const std::string& n, D d, Kind k, const P& p) {
    const IDist* id = 0; for (const IDist* x : counting()) if (x->kind == k) { id = x; break; }
    boost::random::mt19937 g((u32)(1 + c.s.choose(2000000000))); std::ostringstream o; o.precision(17); o << n << p << ", long run over mt19937"; std::string w = o.str(); NOTE(c, w); std::vector<ld> v(20000); for (ld& x : v) x = (ld)d(g);
    Law l; std::size_t N = c.thorough ? 20000000 : 5000000; l.cells(v, [&](ld t) { return cdf_int(*id, p, t); }, [](ld) { return 0.0; }, (double)N, true); for (std::size_t i = 0; i < N; i += v.size()) { for (ld& x : v) x = (ld)d(g); l.take(v.data(), v.size()); } l.judge(c, w); c.label(n + " long run"); c.nontrivial(l.cut.size() >= 1);
}
static void regimes(Ctx& c) {
    namespace br = boost::random;
    switch (c.enumerate(8)) {
    case 0: case 1: { double m = 10 + 0.001 * c.s.choose(4000); longrun(c, "poisson", br::poisson_distribution<>(m), POISSON, P(m)); break; }
    case 2: { double m = 14 * std::pow(40.0, c.s.choose(1000) / 1000.0); longrun(c, "poisson", br::poisson_distribution<>(m), POISSON, P(m)); break; }
    case 3: { int t = 22 + (int)c.s.choose(18); double q = std::min(0.99, (11.0 + 0.001 * c.s.choose(3000)) / t); if (c.s.coin()) q = 1 - q; longrun(c, "binomial", br::binomial_distribution<>(t, q), BINOMIAL, P(t, q)); break; }
    case 4: { int t = 40 + (int)c.s.choose(300); double q = 0.28 + 0.001 * c.s.choose(220); if (c.s.coin()) q = 1 - q; longrun(c, "binomial", br::binomial_distribution<>(t, q), BINOMIAL, P(t, q)); break; }
    case 5: { int t = 400 + (int)c.s.choose(20000); double q = 0.05 + 0.001 * c.s.choose(450); if (c.s.coin()) q = 1 - q; longrun(c, "binomial", br::binomial_distribution<>(t, q), BINOMIAL, P(t, q)); break; }
    case 6: { int t = 10 + (int)c.s.choose(60); double q = (0.5 + 0.001 * c.s.choose(9500)) / (t + 1); longrun(c, "binomial", br::binomial_distribution<>(t, q), BINOMIAL, P(t, q)); break; }
    default: { double m = 0.05 * (1 + c.s.choose(198)); longrun(c, "poisson", br::poisson_distribution<>(m), POISSON, P(m)); } }
}
}
namespace pbt { void register_checks() {
    add("law", 6000, 60000, vf::law);
    add("deep", 400, 2000, vf::deep);
    add("inverse", 5000, 60000, vf::inverse);
    add("trial", 20000, 300000, vf::trial);
    add("regimes", 80, 240, vf::regimes);
    add("library", 400, 4000, vf::library);
} }
