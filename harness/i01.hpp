// I01: the library's distributions over engines from elsewhere.
#ifndef VERIF_I01_HPP
#define VERIF_I01_HPP
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "script.hpp"
namespace vf {
typedef long double ld;
enum DKind { K_UINT, K_UINT_LL, K_UINT_U8, K_UINT_U64, K_SMALLINT, K_UREAL, K_UREAL_F, K_UREAL_L, K_U01, K_CANON, K_CANON_F, K_BERNOULLI, K_NORMAL, K_NORMAL_F, K_NORMAL_L, K_EXP, K_GAMMA, K_BETA, K_CHI2, K_NCCHI2, K_FISHER, K_STUDENT, K_CAUCHY, K_LAPLACE,
    K_EXTREME, K_WEIBULL, K_TRIANGLE, K_LOGNORMAL, K_HYPEREXP, K_PCONST, K_PLINEAR, K_BINOMIAL, K_GEOMETRIC, K_NEGBIN, K_POISSON, K_DISCRETE, K_SPHERE, K_VARGEN, K_RNG, K_NK };
inline const char* kname(int k) { static const char* const n[] = { "uniform_int<int>", "uniform_int<long long>", "uniform_int<unsigned char>", "uniform_int<uint64>", "uniform_smallint", "uniform_real<double>", "uniform_real<float>", "uniform_real<long double>", "uniform_01", "generate_canonical<double>", "generate_canonical<float>", "bernoulli", "normal<double>", "normal<float>", "normal<long double>", "exponential", "gamma", "beta", "chi_squared", "non_central_chi_squared", "fisher_f", "student_t", "cauchy", "laplace",
    "extreme_value", "weibull", "triangle", "lognormal", "hyperexponential", "piecewise_constant", "piecewise_linear", "binomial", "geometric", "negative_binomial", "poisson", "discrete", "uniform_on_sphere", "variate_generator", "random_number_generator" }; return n[k]; }
struct Draw { int kind; long long i, j; u64 u, v; double a, b, c; std::vector<double> w; };
inline std::string show(const Draw& d) { std::ostringstream os; os.precision(17); os << kname(d.kind) << " with i=" << d.i << " j=" << d.j << " u=" << d.u << " v=" << d.v << " a=" << d.a << " b=" << d.b << " c=" << d.c << " w="; for (double x : d.w) os << x << " "; return os.str(); }
inline Draw gen_draw(Ctx& c) {
    Draw d; d.kind = (int)c.s.choose(K_NK - 1); d.i = d.j = 0; d.u = d.v = 0; d.a = d.b = d.c = 0;
    switch (d.kind) {
    case K_UINT: case K_VARGEN: { d.i = (std::int32_t)c.s.special(0xffffffffu); d.j = (std::int32_t)c.s.special(0xffffffffu); if (c.s.coin()) { d.i = c.s.irange(-20, 20); d.j = d.i + (long long)c.s.choose(c.s.coin() ? 10 : 1000); } if (d.i > d.j) std::swap(d.i, d.j); break; }
    case K_UINT_LL: { d.i = (long long)c.s.special(~0ull); d.j = (long long)c.s.special(~0ull); if (d.i > d.j) std::swap(d.i, d.j); break; }
    case K_UINT_U8: { d.i = (long long)c.s.choose(255); d.j = (long long)c.s.choose(255); if (d.i > d.j) std::swap(d.i, d.j); break; }
    case K_UINT_U64: { d.u = c.s.special(~0ull); d.v = c.s.special(~0ull); if (d.u > d.v) std::swap(d.u, d.v); break; }
    case K_SMALLINT: d.i = c.s.irange(-50, 50); d.j = d.i + (long long)c.s.choose(c.s.coin() ? 3 : 40); break;
    case K_UREAL: case K_UREAL_F: case K_UREAL_L: d.a = (double)c.s.irange(-50, 50) / 4; d.b = d.a + 0.25 * (double)(1 + c.s.choose(400)); break;
    case K_BERNOULLI: d.a = (double)c.s.choose(16) / 16; break;
    case K_GAMMA: case K_BETA: case K_FISHER: case K_WEIBULL: case K_NCCHI2: d.a = c.s.coin() ? (double)(1 + c.s.choose(9)) : c.s.logu(0.1, 50); d.b = c.s.coin() ? (double)(1 + c.s.choose(9)) : c.s.logu(0.1, 50); break;
    case K_CHI2: case K_STUDENT: case K_EXP: d.a = c.s.coin() ? (double)(1 + c.s.choose(9)) : c.s.logu(0.2, 50); break;
    case K_NORMAL: case K_NORMAL_F: case K_NORMAL_L: case K_CAUCHY: case K_LAPLACE: case K_EXTREME: case K_LOGNORMAL: d.a = (double)c.s.irange(-8, 8) / 4; d.b = (double)(1 + c.s.choose(12)) / 4; break;
    case K_TRIANGLE: d.a = (double)c.s.irange(-8, 8); d.b = d.a + (double)c.s.choose(4); d.c = d.b + 1 + (double)c.s.choose(4); break;
    case K_BINOMIAL: d.i = (long long)(c.s.coin() ? c.s.choose(20) : c.s.choose(5000)); d.a = (double)(1 + c.s.choose(14)) / 16; break;
    case K_GEOMETRIC: d.a = (double)(1 + c.s.choose(14)) / 16; break;
    case K_NEGBIN: d.i = 1 + (long long)c.s.choose(20); d.a = (double)(1 + c.s.choose(14)) / 16; break;
    case K_POISSON: d.a = c.s.coin() ? c.s.logu(0.1, 10) : c.s.logu(10, 1e5); break;
    case K_HYPEREXP: case K_PCONST: case K_PLINEAR: case K_DISCRETE: { std::size_t n = 2 + c.s.choose(8); for (std::size_t i = 0; i < n; ++i) d.w.push_back((double)(1 + c.s.choose(15))); break; }
    case K_SPHERE: d.i = (long long)c.s.choose(6); break;
    case K_RNG: d.i = 1 + (long long)c.s.special(0x7ffffffe); break;
    default: break;
    }
    return d;
}
struct Variant { const char* name; void (*run)(const Draw&, const ScriptP&, u64& pos, std::vector<ld>& out, std::size_t n); };
struct Shape { const char* name; u64 maxoff; std::vector<Variant> v; bool reals = false; };    // the first variant is the reference
Shape shape0(); Shape shape1(); Shape shape2(); Shape shape3(); Shape shape4(); Shape shape5();
// engines of the same values, the boost one and the standard one
struct Pair { const char* name; void (*run)(const Draw&, u64 seed, u64 skip, std::vector<ld>& a, std::vector<ld>& b, std::size_t n, bool& same_after); };
std::vector<Pair> pairs_a(); std::vector<Pair> pairs_b();
}
#endif
