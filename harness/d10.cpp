// D10: points on the sphere.
#include "dist_impl.hpp"
#include "law.hpp"
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/ranlux.hpp>
#include <deque>
#include <list>
const char* pbt_rule = "a case counts as non-trivial when a vector of dimension one or more was returned and its norm compared with one, or when at least 15,000 vectors were compared with the uniform law; distinctness is over dimension, type, container, engine, script, route and direction";
namespace br = boost::random;
namespace vf {
// one type of sphere: draws n vectors of the dimension one after the other into out
template<class T, class C> struct Sph { typedef br::uniform_on_sphere<T, C> D; };
enum { ROUTES = 9 };
static const char* const ROUTE[] = { "made with its dimension", "made from parameters", "parameters assigned", "a copy", "assigned", "restored from text", "restored parameters", "one-shot parameters", "used, then parameters assigned" };
template<class T, class C> struct SphT {
    typedef br::uniform_on_sphere<T, C> D; typedef typename D::param_type X; 
    static D make(int dim, int other, int route) {
        D d(dim); switch (route) { case 1: return D(X(dim)); case 2: { D o(other); o.param(X(dim)); return o; } case 3: { D o(d); return o; } case 4: { D o(other); o = d; return o; } case 5: { D o(other); std::stringstream s; s << d; s >> o; return o; } case 6: { X p(dim), q(other); std::stringstream s; s << p; s >> q; return D(q); } case 7: return D(other); case 8: { D o(other); br::mt19937 g; o(g); o.param(d.param()); return o; } default: return d; }
    }
    static void put(const C& v, std::vector<ld>& out) { std::vector<ld> r(v.begin(), v.end()); out.insert(out.end(), r.begin(), r.end()); }
};
// draws n vectors; all sizes are checked
template<class T, class C> static void drawT(Ctx& c, const std::string& w, int dim, int other, int route, int eng, const ScriptP& s, u64& pos, std::size_t n, std::vector<ld>& out, std::true_type full) {
    typedef SphT<T, C> S; typename S::D d = S::make(dim, other, route); typename S::X x(dim); out.clear();
    REQUIRE(c, route == 7 || d.dim() == dim, w << ": dim() is " << d.dim()); REQUIRE(c, route == 7 || (int)(d.min)().size() == dim, w << ": min() has " << (d.min)().size() << " coordinates"); REQUIRE(c, route == 7 || (int)(d.max)().size() == dim, w << ": max() has " << (d.max)().size() << " coordinates");
    with_engine(eng, s, pos, [&](auto& e) { for (std::size_t i = 0; i < n; ++i) { if (route == 7) { C v = d(e, x); REQUIRE(c, (int)v.size() == dim, w << ": " << v.size() << " coordinates"); S::put(v, out); } else { const C& v = d(e); REQUIRE(c, (int)v.size() == dim, w << ": " << v.size() << " coordinates"); S::put(v, out); } } }, full);
}
typedef void (*Draw)(Ctx&, const std::string&, int, int, int, int, const ScriptP&, u64&, std::size_t, std::vector<ld>&, std::true_type);
struct Kd { const char* name; ld eps; Draw draw; };
static const Kd KINDS[] = { { "double, vector", 2.22044604925031308e-16L, &drawT<double, std::vector<double> > }, { "float, vector", 1.1920929e-7L, &drawT<float, std::vector<float> > }, { "long double, vector", std::numeric_limits<ld>::epsilon(), &drawT<ld, std::vector<ld> > }, { "double, list", 2.22044604925031308e-16L, &drawT<double, std::list<double> > }, { "float, deque", 1.1920929e-7L, &drawT<float, std::deque<float> > } };
static std::string text(const Kd& k, int dim, int eng, int route, int other) { std::ostringstream o; o << "uniform_on_sphere<" << k.name << "> of dimension " << dim << ", " << ROUTE[route]; if (route) o << " (other dimension " << other << ")"; o << ", over a " << ENG_NAMES[eng]; return o.str(); }
static int some_dim(Ctx& c, int cap) { switch (c.s.choose(5)) { case 0: return (int)c.s.choose(4); case 1: return 2; case 2: return 3; case 3: return 4 + (int)c.s.choose(6); case 4: return (int)c.s.choose((u64)cap); default: return (int)c.s.choose(12); } }
static void unit(Ctx& c) {
    const Kd& k = KINDS[c.enumerate(5)]; int dim = some_dim(c, 200), other = some_dim(c, 20), route = (int)c.s.choose(ROUTES - 1), eng = (int)c.s.choose(NENG - 1); std::string w = text(k, dim, eng, route, other); NOTE(c, w); ScriptP s = gen_script(c, ENG_MAX[eng], 24); u64 pos = 0; std::vector<ld> v; std::size_t n = 1 + c.s.choose(3);
    k.draw(c, w, dim, other, route, eng, s, pos, n, v, std::true_type()); if (dim == 0) REQUIRE(c, pos == 0, w << ": uses " << pos << " engine values");
    for (std::size_t i = 0; i < n && dim; ++i) { ld q = 0; std::ostringstream o; o.precision(21); for (int j = 0; j < dim; ++j) { ld x = v[i * dim + j]; o << x << " "; q += x * x; } ld r = std::sqrt(q); REQUIRE(c, std::fabs(r - 1) <= k.eps * (10 + dim), w << ": vector " << i << " (" << o.str() << ") has norm " << r); }
    // another route to the same dimension gives the same values
    u64 p2 = 0; std::vector<ld> v2; k.draw(c, w, dim, other, 0, eng, s, p2, n, v2, std::true_type()); REQUIRE(c, v == v2 && pos == p2, w << ": other values than one made with the dimension"); c.label(dim < 4 ? "dimension " + str(dim) : "more dimensions"); c.label(ROUTE[route]); c.nontrivial(dim > 0);
}
static double marginal(int dim, ld t) { static const IDist* beta = 0; if (!beta) for (const IDist* d : dists()) if (d->kind == BETA && d->digits == 64) beta = d; if (t <= -1) return 0; if (t >= 1) return 1; double h = cdf(*beta, P(0.5L, (dim - 1) * 0.5L), t * t) / 2; return t < 0 ? 0.5 - h : 0.5 + h; }
// a point by its products with a direction, with the previous point, by the pair of two coordinates and by signs
static void directions(Ctx& c, const std::string& w, int dim, ld eps, std::size_t N, const std::function<void(std::size_t, std::vector<ld>&)>& draw) {
    std::vector<std::vector<ld> > dir; int axis = (int)c.s.choose(dim - 1), ax2 = dim > 1 ? (int)((axis + 1 + c.s.choose(dim - 2 + (dim == 2))) % dim) : 0; if (ax2 == axis) ax2 = (axis + 1) % dim; dir.push_back(std::vector<ld>(dim, 0)); dir[0][axis] = 1; std::vector<ld> u(dim); ld q = 0; for (ld& x : u) { x = (ld)(std::sqrt(-2 * std::log(1 - c.s.u01())) * std::cos(6.283185307179586 * c.s.u01())); q += x * x; } if (q == 0) u[0] = q = 1; for (ld& x : u) x /= std::sqrt(q); dir.push_back(u);
    if (dim > 1) { std::vector<ld> g(dim, 0); g[axis] = g[ax2] = std::sqrt(0.5L) * (c.s.coin() ? 1 : 1); if (c.s.coin()) g[ax2] = -g[ax2]; dir.push_back(g); }
    std::size_t nd = dir.size() + 1; std::vector<Law> law(nd); auto cd = [&](ld t) { return marginal(dim, t); }; auto sl = [&](ld t) { return std::fabs(marginal(dim, t + eps * 8) - marginal(dim, t - eps * 8)); };
    auto project = [&](const std::vector<ld>& v, std::vector<std::vector<ld> >& out) { std::size_t n = v.size() / dim; out.assign(nd, std::vector<ld>()); for (std::size_t i = 0; i < n; ++i) { for (std::size_t k = 0; k + 1 < nd; ++k) { ld s = 0; for (int j = 0; j < dim; ++j) s += dir[k][j] * v[i * dim + j]; out[k].push_back(s); } if (i % 2) { ld s = 0; for (int j = 0; j < dim; ++j) s += v[i * dim + j] * v[(i - 1) * dim + j]; out[nd - 1].push_back(s); } } };
    std::vector<ld> v; std::vector<std::vector<ld> > o; draw(2000, v); project(v, o); for (std::size_t k = 0; k < nd; ++k) law[k].cells(o[k], cd, sl, k + 1 < nd ? (double)N : N / 2.0);
    int bits = std::min(dim, 8); std::vector<double> orth((std::size_t)1 << bits, 0.0); double octant[8] = { 0 }, both[16] = { 0 }; std::size_t step = std::min<std::size_t>(N, 20000); (void)both;
    for (std::size_t k = 0; k < N; k += step) { draw(step, v); project(v, o); for (std::size_t i = 0; i < nd; ++i) law[i].take(o[i].data(), o[i].size()); for (std::size_t i = 0; i < step; ++i) { std::size_t m = 0; for (int j = 0; j < bits; ++j) m |= (std::size_t)(v[i * dim + j] > 0) << j; ++orth[m]; if (dim > 1) { ld x = v[i * dim + axis], y = v[i * dim + ax2]; int oc = (x > 0) * 4 + (y > 0) * 2 + (std::fabs(x) > std::fabs(y)); ++octant[oc]; } } }
    if (dim == 1) { double z = (orth[1] - N / 2.0) / std::sqrt(N / 4.0); REQUIRE(c, std::fabs(z) < 7.5, w << ": " << orth[1] << " of " << N << " are positive"); return; }
    static const char* const WHAT[] = { "coordinate along an axis", "product with a direction", "diagonal of two coordinates", "product of successive vectors" }; for (std::size_t k = 0; k < nd; ++k) law[k].judge(c, w + ": " + WHAT[k + 1 < nd ? k : 3]);
    double z = chi2z(orth, std::vector<double>(orth.size(), (double)N / orth.size()), 20); REQUIRE(c, z < 7.5, w << ": orthants are not equally likely, z = " << z); z = chi2z(std::vector<double>(octant, octant + 8), std::vector<double>(8, N / 8.0), 20); REQUIRE(c, z < 7.5, w << ": directions in the plane of coordinates " << axis << " and " << ax2 << " are not equally likely, z = " << z);
}
static void law(Ctx& c) {
    const Kd& k = KINDS[c.enumerate(5)]; int dim = std::max(1, some_dim(c, 40)), eng = (int)c.s.choose(NENG - 1), route = c.s.chance(1, 3) ? (int)c.s.choose(ROUTES - 1) : 0, other = some_dim(c, 20); if (ENG_MAX[eng] < 0x7ffffff0u && dim > 1) eng = (int)c.s.choose(1); std::string w = text(k, dim, eng, route, other); NOTE(c, w); ScriptP s(new Script); s->tail = c.s.choose(~0ull); s->limit = ~0ull; u64 pos = 0; std::size_t N = c.thorough ? 100000 : 20000; if (dim > 20) N = 20000;
    directions(c, w, dim, k.eps * (10 + dim), N, [&](std::size_t n, std::vector<ld>& v) { k.draw(c, w, dim, other, route, eng, s, pos, n, v, std::true_type()); }); c.label("dimension " + str(std::min(dim, 10)) + (dim >= 10 ? " or more" : "")); c.nontrivial();
}
template<class G> static void libT(Ctx& c, const char* n) { int dim = 1 + (int)c.s.choose(6); G g((u32)(1 + c.s.choose(2000000000))); br::uniform_on_sphere<> d(dim); std::ostringstream o; o << "uniform_on_sphere<> of dimension " << dim << " over " << n; std::string w = o.str(); NOTE(c, w); directions(c, w, dim, 1e-14L, 40000, [&](std::size_t k, std::vector<ld>& v) { v.clear(); for (std::size_t i = 0; i < k; ++i) { const std::vector<double>& x = d(g); REQUIRE(c, (int)x.size() == dim, w << ": " << x.size() << " coordinates"); v.insert(v.end(), x.begin(), x.end()); } }); c.label(n); c.nontrivial(); }
static void library(Ctx& c) { switch (c.enumerate(5)) { case 0: libT<br::mt19937>(c, "mt19937"); break; case 1: libT<br::mt19937_64>(c, "mt19937_64"); break; case 2: libT<br::lagged_fibonacci607>(c, "lagged_fibonacci607"); break; case 3: libT<br::minstd_rand>(c, "minstd_rand"); break; default: libT<br::ranlux64_4_01>(c, "ranlux64_4_01"); } }
// dimension one: half of the engine's values
static void halves(Ctx& c) {
    const Kd& k = KINDS[c.enumerate(5)]; static const int E[] = { 2, 4, 5, 8 }; int eng = E[c.s.choose(3)]; u64 m = ENG_MAX[eng] + 1; std::string w = text(k, 1, eng, 0, 0); NOTE(c, w); ScriptP s(new Script); s->head.resize(m); u64 pos = 0; u64 off = c.s.choose(m - 1); for (u64 i = 0; i < m; ++i) s->head[i] = (i + off) % m; std::vector<ld> v; k.draw(c, w, 1, 0, 0, eng, s, pos, m, v, std::true_type()); if (pos != m) { c.label("not one engine value"); return; }
    u64 n = 0; for (ld x : v) { REQUIRE(c, x == 1 || x == -1, w << ": returns " << x); n += x > 0; } REQUIRE(c, n * 2 == m, w << ": " << n << " of " << m << " engine values give 1"); c.nontrivial();
}
// bounds, equality, default
static void meta(Ctx& c) {
    int a = some_dim(c, 30), b = some_dim(c, 30); br::uniform_on_sphere<> x(a), y(b), z; NOTE(c, "dimensions " << a << " and " << b); REQUIRE(c, (x == y) == (a == b) && (x != y) == (a != b), "spheres of dimension " << a << " and " << b << " compare " << (x == y)); REQUIRE(c, (x.param() == y.param()) == (a == b) && (x.param() != y.param()) == (a != b), "parameters of dimension " << a << " and " << b << " compare " << (x.param() == y.param())); REQUIRE(c, z.dim() == 2 && br::uniform_on_sphere<>::param_type().dim() == 2, "default dimension " << z.dim()); REQUIRE(c, x.param().dim() == a, "param().dim()");
    std::vector<double> lo = (x.min)(), hi = (x.max)(); REQUIRE(c, (int)lo.size() == a && (int)hi.size() == a, "bounds of dimension " << lo.size() << ", " << hi.size()); if (a) REQUIRE(c, lo[0] == -1 && hi[0] == 1, "bounds"); c.nontrivial(a > 0);
}
}
namespace pbt { void register_checks() {
    add("unit", 60000, 1000000, vf::unit);
    add("law", 500, 4000, vf::law);
    add("library", 40, 400, vf::library);
    add("halves", 200, 2000, vf::halves);
    add("meta", 4000, 40000, vf::meta);
} }
