// D09: parameters fully determine a distribution.
#include "law.hpp"
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/mersenne_twister.hpp>
const char* pbt_rule = "a case counts as non-trivial when at least three objects reached by different routes were compared in equality, reported parameters and values; distinctness is over distribution, parameters, routes and script";
namespace vf {
static std::string name(const IDist& d, const P& p) { std::ostringstream o; o.precision(21); o << d.name << p; return o.str(); }
static bool weighted(const IDist& d) { return d.kind == DISCRETE || d.kind == HYPEREXP || d.kind == PCONST || d.kind == PLINEAR; }
static const IDist& pick_dist(Ctx& c) { return *dists()[c.enumerate(dists().size())]; }
struct Drawn { std::vector<ld> v; u64 pos; bool operator==(const Drawn& o) const { return pos == o.pos && std::memcmp(&pos, &o.pos, 0) == 0 && v == o.v; } };
static Drawn draw(IObj& x, int e, const ScriptP& s, std::size_t n) { Drawn r; r.pos = 0; r.v.resize(n); x.draw(e, s, r.pos, r.v.data(), n); for (ld& t : r.v) if (t != t) t = -12345; return r; }
static std::string show(const Drawn& d) { std::ostringstream o; o.precision(21); for (ld x : d.v) o << x << " "; o << "(" << d.pos << " engine values)"; return o.str(); }
// distributions that divide real weights by their sum, and do so again from what they report, agree to rounding only
static bool soft(const IDist& d) { return d.real_weights && (d.kind == DISCRETE || d.kind == HYPEREXP || d.kind == PCONST); }
struct Inexact { bool any; std::string what; Inexact() : any(false) {} void add(const std::string& w) { if (!any) { any = true; what = w; } } void settle(Ctx& c) { if (any) { c.finding = "real-weights-renormalised"; REQUIRE(c, !any, what); } } };
static bool close_to(const IDist& d, const P& a, const P& b) { if (a.v != b.v || a.b != b.b || a.w.size() != b.w.size()) return false; for (std::size_t i = 0; i < a.w.size(); ++i) if (!(std::fabs(a.w[i] - b.w[i]) <= d.eps * 32 * (a.w.size() + 2) * std::max(a.w[i], b.w[i]))) return false; return true; }
static std::string difference(const P& a, const P& b, ld eps) { std::ostringstream o; o.precision(21); for (std::size_t i = 0; i < a.w.size() && i < b.w.size(); ++i) if (std::fabs(a.w[i] - b.w[i]) > 32 * eps * (2 + a.w.size()) * std::max(std::fabs(a.w[i]), std::fabs(b.w[i]))) o << " [" << i << "] " << b.w[i] << " not " << a.w[i]; return o.str(); }
static void same(Ctx& c, const IDist& d, Inexact& in, const std::string& w, IObj& a, IObj& b, const char* what, int e, const ScriptP& s, std::size_t n) {
    bool eq = a.eq(b), got = a.get() == b.get(); REQUIRE(c, b.eq(a) == eq && a.ne(b) == !eq && b.ne(a) == !eq, w << ": " << what << ": == and != disagree"); REQUIRE(c, a.mn() == b.mn() && a.mx() == b.mx(), w << ": " << what << " has other bounds");
    if (soft(d) && !(eq && got)) {
        REQUIRE(c, close_to(d, a.get(), b.get()), w << ": " << what << " reports " << b.get() << ", the one from values " << a.get() << difference(a.get(), b.get(), d.eps));
        in.add(w + ": " + what + " is not equal to the one from values"); return;
    }
    REQUIRE(c, eq, w << ": " << what << " is not equal to the one from values"); REQUIRE(c, got, w << ": " << what << " reports " << b.get() << ", the one from values " << a.get());
    ObjP x(a.clone()), y(b.clone()); Drawn p = draw(*x, e, s, n), q = draw(*y, e, s, n); REQUIRE(c, p == q, w << ": " << what << " returns " << show(q) << " and the one from values " << show(p));
}
static void routes(Ctx& c) {
    const IDist& d = pick_dist(c); P p = gen_params(c, d, true), o = gen_params(c, d, true); Inexact in; std::string w = name(d, p); int r1 = (int)c.s.choose(d.routes() - 1), r2 = (int)c.s.choose(d.routes() - 1), r3 = (int)c.s.choose(d.routes() - 1), e = (int)c.s.choose(d.nengines - 1); std::size_t n = 1 + c.s.choose(5), used = c.s.choose(5);
    NOTE(c, w << " routes " << r1 << r2 << r3 << " over a " << d.engine(e) << ", " << used << " values used with " << o); ScriptP s = gen_script(c, d.maxoff(e), 10), t = gen_script(c, d.maxoff(e), 10);
    ObjP x(d.make(p, r1)), y(d.make(p, r2)); ParamP pp(d.make_param(p, r3)); ObjP z(d.make_from(*pp)), u(c.s.chance(1, 4) ? d.make_default() : d.make(o)), v(d.make(p, r2));
    if (!weighted(d)) { REQUIRE(c, x->get() == p, w << ": reports " << x->get()); REQUIRE(c, pp->get() == p, w << ": the parameters report " << pp->get()); }
    same(c, d, in, w, *x, *y, "one from values, another way", e, s, n); same(c, d, in, w, *x, *z, "one from a parameter object", e, s, n);
    draw(*u, e, t, used); u->param(*pp); u->reset(); same(c, d, in, w, *x, *u, "one with assigned parameters", e, s, n);
    draw(*v, e, t, used); v->reset(); same(c, d, in, w, *x, *v, "a used one after reset", e, s, n);
    ObjP a(d.make(o)); draw(*a, e, t, used); a->assign(*x); same(c, d, in, w, *x, *a, "an assigned one", e, s, n); ObjP before(a->clone()); draw(*x, e, t, used + 1); same(c, d, in, w, *before, *a, "a copy, after use of the original", e, s, n);
    // the parameter object that the distribution returns
    ParamP q(x->param()); P g = q->get();
    bool peq = q->eq(*pp); REQUIRE(c, pp->eq(*q) == peq && q->ne(*pp) == !peq && pp->ne(*q) == !peq, w << ": == and != of parameters disagree"); if (soft(d) && !peq && close_to(d, g, pp->get())) in.add(w + ": param() is not equal to the parameters it was given"); else
    REQUIRE(c, peq, w << ": param() is " << g << " and not equal to the parameters it was given, " << pp->get());
    ObjP f(d.make_from(*q)); same(c, d, in, w, *y, *f, "one from what param() returns", e, s, n);
    ParamP qc(q->clone()); REQUIRE(c, qc->eq(*q) && !qc->ne(*q), w << ": a copy of the parameters is not equal");
    c.label(d.name); c.label("route " + str(r1)); c.nontrivial(); in.settle(c);
}
// trailing arguments left out
static void defaults(Ctx& c) {
    const IDist& d = pick_dist(c); P def = d.def(); ObjP x(d.make_default()); ParamP q(d.param_default()); std::string w = d.name; Inexact in; REQUIRE(c, x->get() == def, w << ": the default is " << x->get() << ", " << def << " documented"); REQUIRE(c, q->get() == def, w << ": the default parameters are " << q->get() << ", " << def << " documented");
    ObjP y(d.make_from(*q)), z(d.make(def)); int e = (int)c.s.choose(d.nengines - 1); ScriptP s = gen_script(c, d.maxoff(e), 10); same(c, d, in, w + " default", *z, *x, "the default one", e, s, 3); same(c, d, in, w + " default", *z, *y, "the default one from parameters", e, s, 3); ParamP pd(d.make_param(def)); REQUIRE(c, pd->eq(*q), w << ": the default parameters differ from the documented ones");
    std::size_t n = def.v.size(); if (weighted(d)) { c.label("weighted"); return; }
    P p = gen_params(c, d, true); std::size_t k = c.s.choose(n - 1); for (std::size_t i = k; i < n; ++i) p.v[i] = def.v[i]; std::string wp = name(d, p); NOTE(c, wp << " from " << k << " arguments");
    switch (d.kind) { case TRIANGLE: if (!(p.v[0] <= p.v[1] && p.v[1] <= p.v[2])) p.v[0] = -1, p.v[1] = 0.25L; if (k < 2) p.v[1] = def.v[1]; if (k < 1) p.v[0] = 0; break; case UNIFORM_INT: case UNIFORM_SMALLINT: if (p.v[0] > p.v[1]) p.v[0] = 5; break; case UNIFORM_REAL: if (!(p.v[0] < p.v[1])) p.v[0] = -5; break; default: ; }
    ObjP a(d.make(p, 100 + (int)k)), b(d.make(p)); ParamP ap(d.make_param(p, 100 + (int)k)), bp(d.make_param(p)); REQUIRE(c, a->get() == p, wp << " from " << k << " arguments reports " << a->get()); REQUIRE(c, ap->get() == p, wp << ": parameters from " << k << " arguments report " << ap->get()); REQUIRE(c, a->eq(*b) && !a->ne(*b), wp << " from " << k << " arguments is another distribution"); REQUIRE(c, ap->eq(*bp), wp << ": parameters from " << k << " arguments differ");
    c.label(d.name); c.nontrivial();
}
static ld near(Ctx& c, const IDist& d, ld x) { switch (c.s.choose(2)) { case 0: return d.digits == 24 ? (ld)std::nextafterf((float)x, 1e30f) : d.digits == 53 ? (ld)std::nextafter((double)x, 1e300) : std::nextafterl(x, 1e4000L); case 1: return x / 2; default: return d.digits == 24 ? (ld)(float)(x * 1.5L) : d.digits == 53 ? (ld)(double)(x * 1.5L) : x * 1.5L; } }
static std::vector<ld> shares(const std::vector<ld>& w) { ld s = 0; for (ld x : w) s += x; std::vector<ld> r; for (ld x : w) r.push_back(x / s); return r; }
// other parameters, other distribution
static void unequal(Ctx& c) {
    const IDist& d = pick_dist(c); P p = gen_params(c, d, true), o = p; bool other = true;
    if (c.s.chance(1, 4)) o = gen_params(c, d, true);
    else if (weighted(d)) {
        int k = (int)c.s.choose(2); std::size_t i = c.s.choose(p.w.size() - 1);
        if (k == 0 && d.kind == HYPEREXP) o.v[i] = near(c, d, o.v[i]);
        else if (k == 0 && !p.b.empty()) { std::size_t j = c.s.choose(p.b.size() - 1); ld step = j + 1 < p.b.size() ? (p.b[j + 1] - p.b[j]) : 1; ld t = p.b[j] + step / 4; o.b[j] = d.digits == 24 || (d.kind == PCONST && d.name.find("float") != std::string::npos) ? (ld)(float)t : (ld)(double)t; if (j + 1 < p.b.size() && !(o.b[j] < o.b[j + 1])) o.b[j] = p.b[j]; }
        else if (k == 1 && p.w.size() > 1) { std::size_t j = c.s.choose(p.w.size() - 1); std::swap(o.w[i], o.w[j]); }
        else o.w[i] = o.w[i] == 0 ? 1 : (!d.real_weights && o.w[i] > 100) ? o.w[i] / 2 - std::fmod(o.w[i] / 2, 1.0L) : d.real_weights ? o.w[i] / 2 : o.w[i] + 1;
    } else {
        std::size_t i = c.s.choose(p.v.size() - 1); bool ints = d.kind == UNIFORM_INT || d.kind == UNIFORM_SMALLINT || (i == 0 && (d.kind == BINOMIAL || d.kind == NEGBINOMIAL));
        if (ints) { o.v[i] += c.s.coin() ? 1 : -1; } else o.v[i] = near(c, d, o.v[i]);
        bool ok = true; switch (d.kind) { case TRIANGLE: ok = o.v[0] <= o.v[1] && o.v[1] <= o.v[2]; break; case UNIFORM_INT: case UNIFORM_SMALLINT: ok = o.v[0] <= o.v[1] && o.v[0] >= d.imin && o.v[1] <= d.imax; break; case UNIFORM_REAL: ok = o.v[0] < o.v[1]; break; case BERNOULLI: ok = o.v[0] <= 1; break; case GEOMETRIC: ok = o.v[0] < 1 && o.v[0] > 0; break; case BINOMIAL: ok = o.v[0] >= 0 && o.v[0] <= d.imax && o.v[1] <= 1; break; case NEGBINOMIAL: ok = o.v[0] >= 0 && o.v[0] <= d.imax && o.v[1] <= 1 && o.v[1] > 0; break; case STUDENT: case GAMMA: ok = o.v[0] > 0; break; default: ; }
        for (ld x : o.v) if (std::fabs(x) > d.huge / 2) ok = false; if (!ok) return;
    }
    if (weighted(d)) { // the same shares are the same distribution
        if (o.b != p.b || (d.kind == HYPEREXP && o.v != p.v) || o.w.size() != p.w.size()) other = true;
        else { std::vector<ld> a, b; if (p.b.empty()) { a = shares(p.w); b = shares(o.w); } else { a = p.w; b = o.w; ld sa = 0, sb = 0; for (std::size_t i = 0; i + 1 < p.b.size(); ++i) { ld wd = p.b[i + 1] - p.b[i]; sa += d.kind == PCONST ? a[i] : wd * (a[i] + a[i + 1]) / 2; sb += d.kind == PCONST ? b[i] : wd * (b[i] + b[i + 1]) / 2; } for (ld& x : a) x /= sa; for (ld& x : b) x /= sb; }
            other = false; for (std::size_t i = 0; i < a.size(); ++i) if (std::fabs(a[i] - b[i]) > 1e-5L) other = true; }
        if (!other) return;
    } else if (o == p) return;
    std::string w = name(d, p); NOTE(c, w << " and " << o); ObjP x(d.make(p)), y(d.make(o)); ParamP a(d.make_param(p)), b(d.make_param(o));
    REQUIRE(c, !x->eq(*y) && !y->eq(*x) && x->ne(*y) && y->ne(*x), w << " is equal to " << d.name << o); REQUIRE(c, !a->eq(*b) && !b->eq(*a) && a->ne(*b) && b->ne(*a), w << ": the parameters are equal to " << o); c.label(d.name); c.nontrivial();
}
// one-shot parameters
static void oneshot(Ctx& c) {
    const IDist& d = pick_dist(c); P p = gen_params(c, d, true), o = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1); std::string w = name(d, p) + " in " + name(d, o) + " over a " + d.engine(e); NOTE(c, w);
    ScriptP s = gen_script(c, d.maxoff(e), 10), t = gen_script(c, d.maxoff(e), 10); ObjP x(d.make(o)), y(d.make(o)); ParamP pp(d.make_param(p)), keep(pp->clone()); std::size_t used = c.s.choose(3), n = 1 + c.s.choose(3); draw(*x, e, t, used); draw(*y, e, t, used);
    std::vector<ld> v(n); u64 pos = 0; x->draw1(e, s, pos, *pp, v.data(), n); std::string why; for (ld r : v) REQUIRE(c, possible(d, p, r, why), w << ": returned " << r << ", " << why);
    Inexact in; REQUIRE(c, pp->eq(*keep) && pp->get() == keep->get(), w << ": drawing changed the parameters"); same(c, d, in, w, *y, *x, "the distribution after a one-shot draw", e, t, 3);
    // what the distribution did before does not matter
    ObjP z(d.make_default()); std::vector<ld> v2(n); u64 pos2 = 0; z->draw1(e, s, pos2, *keep, v2.data(), n); for (ld& r : v) if (r != r) r = 0; for (ld& r : v2) if (r != r) r = 0; REQUIRE(c, v == v2 && pos == pos2, w << ": one-shot values depend on the distribution they are drawn through");
    c.label(d.name); c.nontrivial();
}
static void oneshot_law(Ctx& c) {
    const IDist& d = pick_dist(c); if (d.kind == UNIFORM_INT || d.kind == UNIFORM_SMALLINT) return; P p = gen_params(c, d, false), o = gen_params(c, d, false); int e = (int)c.s.choose(1); std::string w = name(d, p) + " one-shot in " + name(d, o) + " over a " + d.engine(e); NOTE(c, w);
    bool count = !d.real_result; ScriptP s(new Script); s->tail = c.s.choose(~0ull); u64 pos = 0; ObjP x(d.make(o)); ParamP pp(d.make_param(p)); const std::size_t N = 6000; std::vector<ld> v(1500); x->draw1(e, s, pos, *pp, v.data(), v.size());
    Law l; ld loose = d.kind == BINOMIAL ? d.eps * p.v[0] : 0; l.cells(v, [&](ld t) { return count ? cdf_int(d, p, t) : cdf(d, p, t); }, [&](ld t) { return count ? (double)loose : slack_of(d, p, t); }, (double)N, count); v.resize(N); x->draw1(e, s, pos, *pp, v.data(), N); l.take(v.data(), N); l.judge(c, w); c.label(d.name); c.nontrivial(l.cut.size() > 0);
}
// spheres: the dimension
template<class T> static void sphereT(Ctx& c) {
    typedef boost::random::uniform_on_sphere<T> D; typedef typename D::param_type X; int a = (int)c.s.choose(c.s.coin() ? 5 : 60), b = (int)c.s.choose(c.s.coin() ? 5 : 60); std::string w = "uniform_on_sphere of dimension " + str(a) + ", other dimension " + str(b); NOTE(c, w); u32 seed = (u32)c.s.choose(~0u);
    D x(a), o(b), from((X(a))), as(b), as2(b), cp(a); boost::random::mt19937 t(9); for (u64 k = c.s.choose(3); k-- > 0;) { o(t); as(t); as2(t); cp(t); } as.param(X(a)); as2.param(x.param()); cp.reset(); D copy(cp); o = x; D* all[] = { &from, &as, &as2, &copy, &o, &cp };
    X p(a), q(b); REQUIRE(c, p.dim() == a && (p == q) == (a == b) && (p != q) == (a != b), w << ": parameters"); D other(b); REQUIRE(c, (x == other) == (a == b) && (x != other) == (a != b), w << ": equality");
    for (D* d : all) { REQUIRE(c, *d == x && !(*d != x) && d->dim() == a && d->param() == p && d->param().dim() == a, w << ": one reached another way has dimension " << d->dim()); boost::random::mt19937 g(seed), h(seed); D y(x); for (int k = 0; k < 3; ++k) { std::vector<T> u = y(g), v = (*d)(h); REQUIRE(c, u == v && g == h && (int)v.size() == a, w << ": other values (" << v.size() << " coordinates)"); } }
    boost::random::mt19937 g(seed), h(seed), k(seed), m(seed); D y(x); other(t); std::vector<T> before = D(other)(m), u = y(g), v = other(h, p); (void)before; REQUIRE(c, u == v && g == h, w << ": one-shot parameters give other values (" << v.size() << " coordinates)"); REQUIRE(c, other.dim() == b && (int)other(k).size() == b, w << ": one-shot parameters change the distribution"); c.label("sphere"); c.nontrivial();
}
static void sphere(Ctx& c) { if (c.s.coin()) sphereT<double>(c); else sphereT<float>(c); }
}
namespace pbt { void register_checks() {
    add("routes", 120000, 1500000, vf::routes);
    add("defaults", 20000, 300000, vf::defaults);
    add("unequal", 150000, 1500000, vf::unequal);
    add("oneshot", 100000, 1500000, vf::oneshot);
    add("oneshot_law", 2500, 25000, vf::oneshot_law);
    add("sphere", 6000, 60000, vf::sphere);
} }
