// D07: weighted distributions honour every weight vector.
#include "law.hpp"
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <list>
#include <memory>
const char* pbt_rule = "a case counts as non-trivial when probabilities found by enumerating engine values, reported values, or at least 15,000 drawn values were compared with those of a weight vector with at least two positive weights (or with a documented default); distinctness is over distribution, weights, boundaries, route, engine and script";
namespace br = boost::random;
namespace vf {
typedef unsigned __int128 u128;
// an engine with a range chosen at run time: given values first, then an endless stream
struct AnyEng {
    typedef u64 result_type; u64 lo, m; const u64* head; std::size_t n; pbt::Prng rest; u64 used;
    AnyEng(u64 l, u64 mm, const u64* h, std::size_t k, u64 seed) : lo(l), m(mm), head(h), n(k), rest(seed), used(0) {}
    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return lo; } result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return lo + m - 1; }
    result_type operator()() { ++used; return lo + (used <= n ? head[used - 1] : rest.below(m)); }
};
// the outcomes of all engine sequences, as far as they are worth following
struct Tree {
    std::vector<u128> count; u128 all, open; bool restarts; u64 sequences;   // count / all: the share that surely ends in each outcome, open / all: still undecided
};
template<class F> static Tree explore(const F& draw, std::size_t n, u64 lo, u64 m, u64 budget, u64 seed) {
    Tree t; t.count.assign(n, 0); t.all = 1; t.restarts = true; t.sequences = 0; std::vector<std::vector<u64> > level(1);
    AnyEng e0(lo, m, 0, 0, seed); ld v0 = draw(e0); u64 used0 = e0.used;
    for (int depth = 1; ; ++depth) {
        std::vector<std::vector<u64> > next; t.all *= m; for (u128& x : t.count) x *= m; t.restarts = true; std::vector<u64> h(depth);
        for (const std::vector<u64>& p : level) { std::copy(p.begin(), p.end(), h.begin()); for (u64 k = 0; k < m; ++k) {
            h[depth - 1] = k; AnyEng e(lo, m, h.data(), depth, seed); ld v = draw(e); ++t.sequences;
            if (e.used <= (u64)depth) { if (!(v >= 0 && v < (ld)n)) pbt::fail("value " + pbt::str(v) + " from " + pbt::str(n) + " weights"); ++t.count[(std::size_t)v]; }
            else { if (v != v0 || e.used != used0 + depth) t.restarts = false; next.push_back(h); }
        } }
        t.open = next.size(); level.swap(next); if (level.empty() || level.size() * m > budget || t.all > ((u128)1 << 62) || (t.restarts && depth > 1 && t.open * 8 < t.all)) break;
    }
    return t;
}
static u64 gcd(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
template<class W> static std::string show(const std::vector<W>& w) { std::ostringstream o; o.precision(21); o << "weights"; for (std::size_t i = 0; i < w.size() && i < 24; ++i) o << " " << +w[i]; if (w.size() > 24) o << " ..."; return o.str(); }
// integer weights: exact probabilities
template<class I, class W> static void exactT(Ctx& c, const char* name) {
    u64 mx = std::min<u64>((std::numeric_limits<W>::max)(), 4000); std::size_t n = 1 + c.s.choose(c.s.chance(1, 5) ? 30 : 6); std::vector<W> w; int kind = (int)c.s.choose(4); for (std::size_t i = 0; i < n; ++i) w.push_back((W)(kind == 0 ? c.s.choose(9) : kind == 1 ? c.s.choose(std::min<u64>(mx, 60)) : kind == 2 ? (c.s.coin() ? 0 : c.s.choose(std::min<u64>(mx, 20))) : kind == 3 ? (mx < 300 ? mx - c.s.choose(c.s.coin() ? 3 : mx) : c.s.choose(5)) : (c.s.coin() ? 0 : 1)));
    u64 sum = 0; std::size_t pos = 0; for (W x : w) { sum += (u64)x; pos += x > 0; } if (!sum) { w[0] = 1; sum = 1; pos = 1; }
    typedef br::discrete_distribution<I, W> D; typedef typename D::param_type X; D d(w); X x(w); int how = (int)c.s.choose(3); u64 avg1 = sum / n + 1, m; 
    switch (c.s.choose(3)) { case 0: m = 2 + c.s.choose(14); break; case 1: m = sum; break; default: m = (u64)n / gcd(n, avg1) * avg1; } if (m < 2) m = 2 * m; if (m > 2000) m = 2 + c.s.choose(100);
    u64 lo = c.s.chance(1, 3) ? c.s.choose(1000) : 0; bool once = how & 1; std::ostringstream o; o << name << "(" << show(w) << ")" << (once ? " with one-shot parameters" : how == 2 ? " from parameters" : "") << " over an engine of " << m << " values from " << lo; std::string s = o.str(); NOTE(c, s);
    if (how == 2) d = D(x); D other; Tree t = explore([&](AnyEng& e) { return once ? (ld)other(e, x) : (ld)d(e); }, n, lo, m, c.thorough ? 60000 : 20000, c.s.choose(~0ull)); u128 done = 0; for (u128 k : t.count) done += k;
    for (std::size_t i = 0; i < n; ++i) {
        u128 wi = (u128)(u64)w[i];
        if (t.open == 0 || (t.restarts && done)) REQUIRE(c, t.count[i] * sum == wi * done, s << ": outcome " << i << " has " << pbt::str(t.count[i]) << " of " << pbt::str(done) << " equally likely cases, " << +w[i] << " of " << sum << " expected");
        else { REQUIRE(c, t.count[i] * sum <= wi * t.all && (t.count[i] + t.open) * sum >= wi * t.all, s << ": outcome " << i << " has " << pbt::str(t.count[i]) << " to " << pbt::str(t.count[i] + t.open) << " of " << pbt::str(t.all) << " equally likely cases, " << +w[i] << " of " << sum << " expected"); if (w[i] == 0) REQUIRE(c, t.count[i] == 0, s << ": outcome " << i << " of weight zero is drawn"); }
    }
    c.label(name); c.label(t.open == 0 ? "all sequences end" : t.restarts ? "rejections start afresh" : "bounds"); c.nontrivial(pos > 1 && t.open * 2 < t.all);
}
static void exact(Ctx& c) {
    switch (c.enumerate(9)) { case 0: exactT<int, int>(c, "discrete<int, int>"); break; case 1: exactT<int, unsigned>(c, "discrete<int, unsigned>"); break; case 2: exactT<short, unsigned short>(c, "discrete<short, unsigned short>"); break; case 3: exactT<unsigned, long long>(c, "discrete<unsigned, long long>"); break; case 4: exactT<int, unsigned char>(c, "discrete<int, unsigned char>"); break;
    case 5: exactT<std::size_t, signed char>(c, "discrete<size_t, signed char>"); break; case 6: exactT<signed char, unsigned char>(c, "discrete<signed char, unsigned char>"); break; case 7: exactT<long long, unsigned long long>(c, "discrete<long long, unsigned long long>"); break; default: exactT<unsigned char, short>(c, "discrete<unsigned char, short>"); }
}
// real weights: probabilities to within the engine's resolution
template<class I, class W> static void binnedT(Ctx& c, const char* name) {
    std::size_t n = 1 + c.s.choose(c.s.chance(1, 5) ? 30 : 6), pos = 0; std::vector<W> w; int kind = (int)c.s.choose(3); ld sum = 0; for (std::size_t i = 0; i < n; ++i) { W x = (W)(kind == 0 ? (double)c.s.choose(9) : kind == 1 ? c.s.u01() : kind == 2 ? (c.s.coin() ? 0 : c.s.logu(1e-3, 1e3)) : c.s.logu(1e-30, 1e30)); w.push_back(x); sum += x; pos += x > 0; } if (sum == 0) { w[0] = 1; sum = 1; pos = 1; }
    typedef br::discrete_distribution<I, W> D; typedef typename D::param_type X; D d(w); X x(w); bool once = c.s.coin(); u64 m = n * ((c.thorough ? 600 : 250) / n + c.s.choose(9)), lo = c.s.chance(1, 3) ? c.s.choose(1000) : 0; std::ostringstream o; o << name << "(" << show(w) << ")" << (once ? " with one-shot parameters" : "") << " over an engine of " << m << " values from " << lo; std::string s = o.str(); NOTE(c, s);
    D other; Tree t = explore([&](AnyEng& e) { return once ? (ld)other(e, x) : (ld)d(e); }, n, lo, m, 400000, c.s.choose(~0ull)); ld all = (ld)t.all, tol = 2.05L / (ld)m + 16 * (ld)std::numeric_limits<W>::epsilon() * n;
    for (std::size_t i = 0; i < n; ++i) { ld p = (ld)w[i] / sum, a = (ld)t.count[i] / all, b = a + (ld)t.open / all; REQUIRE(c, a - tol <= p && p <= b + tol, s << ": outcome " << i << " has probability between " << a << " and " << b << ", " << p << " expected"); if (w[i] == 0) REQUIRE(c, t.count[i] == 0, s << ": outcome " << i << " of weight zero is drawn"); }
    c.label(name); c.label(t.open == 0 ? "all sequences end" : "bounds"); c.nontrivial(pos > 1);
}
static void binned(Ctx& c) { switch (c.enumerate(3)) { case 0: binnedT<int, double>(c, "discrete<int, double>"); break; case 1: binnedT<unsigned, float>(c, "discrete<unsigned, float>"); break; default: binnedT<std::size_t, long double>(c, "discrete<size_t, long double>"); } }
// what is reported
static const std::vector<const IDist*>& weighted() { static std::vector<const IDist*> v; if (v.empty()) for (const IDist* d : dists()) if (d->kind == DISCRETE || d->kind == PCONST || d->kind == PLINEAR || d->kind == HYPEREXP) v.push_back(d); return v; }
static std::string name(const IDist& d, const P& p) { std::ostringstream o; o.precision(21); o << d.name << p; return o.str(); }
static P expected(const IDist& d, const P& p) {
    P r = p; ld s = 0; if (d.kind == PLINEAR) { for (std::size_t i = 0; i + 1 < p.w.size(); ++i) s += (p.w[i] + p.w[i + 1]) * (p.b[i + 1] - p.b[i]) / 2; } else for (ld w : p.w) s += w;
    for (std::size_t i = 0; i < r.w.size(); ++i) { if (d.kind == DISCRETE && !d.real_weights) break; r.w[i] /= s; if (d.kind == PCONST) r.w[i] /= p.b[i + 1] - p.b[i]; } return r;
}
static void reports(Ctx& c, const IDist& d, const std::string& w, const P& got, const P& e) {
    REQUIRE(c, got.v == e.v && got.b == e.b && got.w.size() == e.w.size(), w << ": reports " << got << ", expected " << e); bool exact = d.kind == DISCRETE && !d.real_weights;
    for (std::size_t i = 0; i < e.w.size(); ++i) { ld a = got.w[i], b = e.w[i]; REQUIRE(c, exact ? a == b : (a == 0) == (b == 0) && std::fabs(a - b) <= d.eps * 32 * (e.w.size() + 2) * b, w << ": reports " << a << " for number " << i << ", expected " << b); }
}
static void reported(Ctx& c) {
    const IDist& d = *weighted()[c.enumerate(weighted().size())]; P p = gen_params(c, d, c.s.chance(2, 3)), e = expected(d, p), q = gen_params(c, d, false); int route = (int)c.s.choose(d.routes() - 1), how = (int)c.s.choose(4); std::size_t pos = 0; for (ld x : p.w) pos += x > 0;
    std::string w = name(d, p) + " route " + str(route) + (how == 0 ? ", the distribution" : how == 1 ? ", the parameters" : how == 2 ? ", from parameters" : how == 3 ? ", parameters assigned" : ", its parameters"); NOTE(c, w); P got;
    switch (how) { case 0: got = ObjP(d.make(p, route))->get(); break; case 1: got = ParamP(d.make_param(p, route))->get(); break; case 2: { ParamP x(d.make_param(p, route)); got = ObjP(d.make_from(*x))->get(); break; } case 3: { ParamP x(d.make_param(p, route)); ObjP y(d.make(q)); y->param(*x); got = y->get(); if (d.kind == DISCRETE) REQUIRE(c, y->mn() == 0 && y->mx() == (ld)p.w.size() - 1, w << ": outcomes from " << y->mn() << " to " << y->mx()); break; } default: { ObjP y(d.make(p, route)); got = ParamP(y->param())->get(); } }
    reports(c, d, w, got, e); c.label(d.name); c.nontrivial(pos > 1);
}
// empty and too short input
static void defaults(Ctx& c) {
    const IDist& d = *weighted()[c.enumerate(weighted().size())]; P p; int route = (int)c.s.choose(d.routes() - 1); if (d.kind == PCONST || d.kind == PLINEAR) { if (c.s.coin()) p.b.push_back((ld)c.s.irange(-5, 5)); std::size_t k = c.s.choose(3); if (route == 1 || route == 3) k = std::max<std::size_t>(k, 1); for (std::size_t i = 0; i < k; ++i) p.w.push_back((ld)(2 + c.s.choose(7))); if (route == 4) route = 0; }
    if (d.kind == HYPEREXP) { route = 100; } P e = d.def(); bool param = c.s.coin(); std::string w = d.name + (param ? " parameters" : "") + " from " + str(p.b.size()) + " boundaries, " + str(p.w.size()) + " weights, route " + str(route); NOTE(c, w);
    ObjP y(d.make_default()); reports(c, d, d.name + " by default", y->get(), e); ParamP z(d.param_default()); reports(c, d, d.name + " parameters by default", z->get(), e); if (d.kind == HYPEREXP) { c.nontrivial(); c.label(d.name); return; }
    ObjP x; if (param) { ParamP q(d.make_param(p, route)); reports(c, d, w, q->get(), e); REQUIRE(c, q->eq(*z), w << ": not equal to default parameters"); x.reset(d.make_from(*q)); } else x.reset(d.make(p, route));
    reports(c, d, w, x->get(), e); REQUIRE(c, x->eq(*y) && !x->ne(*y), w << ": not equal to a default distribution"); REQUIRE(c, x->mn() == y->mn() && x->mx() == y->mx(), w << ": bounds " << x->mn() << ", " << x->mx());
    int eng = (int)c.s.choose(d.nengines - 1); ScriptP s = gen_script(c, d.maxoff(eng), 12); u64 a = 0, b = 0; ld u[4], v[4]; x->draw(eng, s, a, u, 4); y->draw(eng, s, b, v, 4); for (int i = 0; i < 4; ++i) REQUIRE(c, u[i] == v[i] && a == b, w << ": draws " << u[i] << ", a default one " << v[i]); c.label(d.name); c.nontrivial();
}
// weights from a function
template<class T> struct Fun { int kind; double lo, span; std::shared_ptr<std::vector<ld> > at; template<class X> T operator()(X x) const { at->push_back((ld)x); double t = ((double)x - lo) / span; return (T)(kind == 0 ? 1 + t : kind == 1 ? std::exp(-3 * t) : kind == 2 ? 2 + std::sin(9 * t) : kind == 3 ? 5 : 0.25 + t * t); } };
template<class R, class D, int WHAT> static void functionT(Ctx& c, const char* nm) { // WHAT: 0 discrete, 1 piecewise constant, 2 piecewise linear
    typedef typename D::param_type X; std::size_t nw = c.s.chance(1, 8) ? 0 : 1 + c.s.choose(c.s.chance(1, 4) ? 60 : 6), n = nw ? nw : 1; R a = (R)(c.s.coin() ? 0 : c.s.coin() ? (double)c.s.irange(-100, 100) / 8 : c.s.logu(1e-3, 1e3) * (c.s.coin() ? 1 : -1)), sp = (R)(c.s.coin() ? (double)(1 + c.s.choose(8)) : c.s.logu(1e-3, 1e3)), b = a + sp; if (!(b > a) || (b - a) < (std::fabs(a) + 1) * 1e-4) { a = 0; b = 1; }
    if (WHAT == 0 && sizeof(R) != sizeof(double)) { a = (R)(double)a; b = (R)(double)b; }
    Fun<R> f; f.kind = (int)c.s.choose(4); f.lo = (double)a; f.span = (double)b - (double)a; f.at.reset(new std::vector<ld>()); bool param = c.s.coin(); std::ostringstream o; o.precision(21); o << nm << (param ? " parameters" : "") << " from function " << f.kind << " over [" << a << ", " << b << "] in " << nw; std::string w = o.str(); NOTE(c, w);
    ld eps = std::numeric_limits<R>::epsilon(), A = a, B = b, delta = (B - A) / n, ulp = std::max(std::fabs(A), std::fabs(B)) * (WHAT ? eps : (ld)std::numeric_limits<double>::epsilon()); std::vector<ld> iv, dens, exp_iv, exp_w, pts;
    if constexpr (WHAT == 0) { std::vector<R> g = param ? X(nw, (double)a, (double)b, f).probabilities() : D(nw, (double)a, (double)b, f).probabilities(); dens.assign(g.begin(), g.end()); }
    else if (param) { X x(nw, a, b, f); auto g = x.intervals(); iv.assign(g.begin(), g.end()); auto h = x.densities(); dens.assign(h.begin(), h.end()); } else { D x(nw, a, b, f); auto g = x.intervals(); iv.assign(g.begin(), g.end()); auto h = x.densities(); dens.assign(h.begin(), h.end()); }
    for (std::size_t k = 0; k < n; ++k) { exp_iv.push_back(A + k * delta); pts.push_back(A + k * delta + (WHAT == 2 ? 0 : delta / 2)); } exp_iv.push_back(B); if (WHAT == 2) pts.push_back(B);
    if (WHAT == 0 && nw == 0) { REQUIRE(c, dens.size() == 1 && dens[0] == 1, w << ": not the default"); c.nontrivial(); return; }
    REQUIRE(c, dens.size() == pts.size(), w << ": " << dens.size() << " weights"); for (ld x : *f.at) { bool near = false; for (ld y : pts) near = near || std::fabs(x - y) <= 6 * ulp; REQUIRE(c, near, w << ": the function is called at " << x); } for (ld y : pts) { bool near = false; for (ld x : *f.at) near = near || std::fabs(x - y) <= 6 * ulp; REQUIRE(c, near, w << ": the function is not called at " << y); }
    if (WHAT) { REQUIRE(c, iv.size() == exp_iv.size() && iv.front() == A && iv.back() == B, w << ": intervals from " << (iv.empty() ? 0 : iv.front()) << " to " << (iv.empty() ? 0 : iv.back())); for (std::size_t k = 0; k < iv.size(); ++k) REQUIRE(c, std::fabs(iv[k] - exp_iv[k]) <= 4 * ulp, w << ": boundary " << k << " is " << iv[k] << ", expected " << exp_iv[k]); }
    ld s = 0; for (std::size_t k = 0; k < pts.size(); ++k) exp_w.push_back((ld)(typename D::result_type(0), f(pts[k]))); for (std::size_t k = 0; k < pts.size(); ++k) s += WHAT == 2 ? (k + 1 < pts.size() ? (exp_w[k] + exp_w[k + 1]) / 2 * delta : 0) : WHAT == 1 ? exp_w[k] * delta : exp_w[k];
    ld tol = 64 * eps * (n + 2) + 200 * ulp / (B - A) * (n + 1); for (std::size_t k = 0; k < pts.size(); ++k) REQUIRE(c, std::fabs(dens[k] * s - exp_w[k]) <= tol * exp_w[k], w << ": weight " << k << " is reported as " << dens[k] << ", expected " << exp_w[k] / s); c.label(nm); c.nontrivial();
}
static void function(Ctx& c) {
    switch (c.enumerate(9)) { case 0: functionT<double, br::discrete_distribution<int, double>, 0>(c, "discrete<int, double>"); break; case 1: functionT<float, br::discrete_distribution<int, float>, 0>(c, "discrete<int, float>"); break; case 2: functionT<long double, br::discrete_distribution<int, long double>, 0>(c, "discrete<int, long double>"); break;
    case 3: functionT<double, br::piecewise_constant_distribution<double>, 1>(c, "piecewise_constant<double>"); break; case 4: functionT<float, br::piecewise_constant_distribution<float, float>, 1>(c, "piecewise_constant<float>"); break; case 5: functionT<long double, br::piecewise_constant_distribution<long double, long double>, 1>(c, "piecewise_constant<long double>"); break;
    case 6: functionT<double, br::piecewise_linear_distribution<double>, 2>(c, "piecewise_linear<double>"); break; case 7: functionT<float, br::piecewise_linear_distribution<float>, 2>(c, "piecewise_linear<float>"); break; default: functionT<long double, br::piecewise_linear_distribution<long double>, 2>(c, "piecewise_linear<long double>"); }
}
// values
static void check(Ctx& c, const IDist& d, const P& p, int e, std::size_t first, std::size_t N, bool once) {
    std::string w = name(d, p) + (once ? " with one-shot parameters" : "") + " over a " + d.engine(e); NOTE(c, w); ScriptP s(new Script); s->tail = c.s.choose(~0ull); s->limit = ~0ull; u64 pos = 0; ObjP x(once ? d.make_default() : d.make(p)); ParamP q(d.make_param(p)); std::vector<ld> v(first); std::size_t positive = 0; for (ld t : p.w) positive += t > 0;
    auto draw = [&](ld* out, std::size_t n) { if (once) x->draw1(e, s, pos, *q, out, n); else x->draw(e, s, pos, out, n); };
    if (d.kind == DISCRETE) {
        std::vector<double> obs(p.w.size(), 0.0), ex(p.w.size(), 0.0); ld sum = 0; for (ld t : p.w) sum += t; v.resize(20000); std::vector<double> pr(16, 0.0); std::size_t half = p.w.size() / 2;
        for (std::size_t k = 0; k < N; k += v.size()) { draw(v.data(), v.size()); for (std::size_t i = 0; i < v.size(); ++i) { ld t = v[i]; REQUIRE(c, t >= 0 && t < p.w.size() && p.w[(std::size_t)t] > 0, w << ": returns " << t); ++obs[(std::size_t)t]; if (i % 2) ++pr[(v[i - 1] > half) * 2 + (t > half)]; } }
        for (std::size_t i = 0; i < ex.size(); ++i) { ex[i] = (double)(p.w[i] / sum * N); double z = (obs[i] - ex[i]) / std::sqrt(std::max(1.0, ex[i] * (1 - ex[i] / N))); REQUIRE(c, std::fabs(z) < 7.5 + (ex[i] < 200 ? 8 : 0), w << ": outcome " << i << " is drawn " << obs[i] << " times, " << ex[i] << " expected"); } double z = chi2z(obs, ex, 20); REQUIRE(c, z < 7.5, w << ": chi-square z = " << z);
        pr.resize(4); double dep = Law::dependence(pr, 2); REQUIRE(c, dep < 7.5, w << ": successive values depend on each other, z = " << dep); c.label(d.name); c.nontrivial(positive > 1); return;
    }
    draw(v.data(), first); Law l; l.cells(v, [&](ld t) { return cdf(d, p, t); }, [&](ld t) { return slack_of(d, p, t); }, (double)N, c.s.chance(1, 4)); v.resize(20000); for (std::size_t k = 0; k < N; k += v.size()) { draw(v.data(), v.size()); l.take(v.data(), v.size()); }
    l.judge(c, w); c.label(d.name); c.nontrivial(l.cut.size() >= 5);
}
static void law(Ctx& c) { const IDist& d = *weighted()[c.enumerate(weighted().size())]; P p = gen_params(c, d, d.kind == DISCRETE && c.s.coin()); int e = (int)c.s.choose(d.nengines - 1); if (d.maxoff(e) < 60000 && (d.kind != DISCRETE || d.real_weights)) e = 0; check(c, d, p, e, 2000, 20000, c.s.coin()); }
static void deep(Ctx& c) { const IDist& d = *weighted()[c.enumerate(weighted().size())]; P p = gen_params(c, d, d.kind == DISCRETE && c.s.coin()); int e = (int)c.s.choose(d.nengines - 1); if (d.maxoff(e) < 0x7ffffff0u) e = (int)c.s.choose(1); check(c, d, p, e, 20000, c.thorough ? 4000000 : 400000, c.s.coin()); }
}
namespace pbt { void register_checks() {
    add("exact", 4000, 40000, vf::exact);
    add("binned", 600, 6000, vf::binned);
    add("reported", 60000, 800000, vf::reported);
    add("defaults", 2000, 20000, vf::defaults);
    add("function", 30000, 300000, vf::function);
    add("law", 1500, 15000, vf::law);
    add("deep", 100, 500, vf::deep);
} }
