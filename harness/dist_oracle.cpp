// Which values are possible, and the laws themselves.
#include "dist.hpp"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/distributions/non_central_chi_squared.hpp>
namespace bm = boost::math;
typedef bm::policies::policy<bm::policies::promote_double<false>, bm::policies::domain_error<bm::policies::ignore_error>, bm::policies::overflow_error<bm::policies::ignore_error>, bm::policies::evaluation_error<bm::policies::ignore_error> > Pol;
namespace vf {
static double Phi(double z) { return 0.5 * std::erfc(-z * 0.70710678118654752440); }
double cdf(const IDist& d, const P& p, ld xl) {
    double x = (double)xl, a = p.v.size() > 0 ? (double)p.v[0] : 0, b = p.v.size() > 1 ? (double)p.v[1] : 0;
    switch (d.kind) {
    case TRIANGLE: { ld A = p.v[0], B = p.v[1], C = p.v[2]; if (xl <= A) return 0; if (xl >= C) return 1; return xl <= B ? (double)((xl - A) / (C - A) * ((xl - A) / (B - A))) : (double)(1 - (C - xl) / (C - A) * ((C - xl) / (C - B))); }
    case NORMAL: return Phi((double)((xl - p.v[0]) / p.v[1]));
    case LOGNORMAL: return xl <= 0 ? 0 : Phi((double)((std::log(xl) - p.v[0]) / p.v[1]));
    case EXPONENTIAL: return xl <= 0 ? 0 : (double)-std::expm1(-xl * p.v[0]);
    case GAMMA: return xl <= 0 ? 0 : bm::gamma_p(a, (double)(xl / p.v[1]), Pol());
    case BETA: return x <= 0 ? 0 : x >= 1 ? 1 : bm::ibeta(a, b, x, Pol());
    case CAUCHY: return 0.5 + (double)(std::atan((xl - p.v[0]) / p.v[1]) / 3.14159265358979323846264338327950288L);
    case CHI2: return x <= 0 ? 0 : bm::gamma_p(a / 2, x / 2, Pol());
    case EXTREME: return (double)std::exp(-std::exp(-(xl - p.v[0]) / p.v[1]));
    case FISHER: { if (x <= 0) return 0; if (x > 1e300) return 1; double m = a, n = b; return m * x > n ? bm::ibetac(n / 2, m / 2, n / (n + m * x), Pol()) : bm::ibeta(m / 2, n / 2, m * x / (n + m * x), Pol()); }
    case LAPLACE: { ld z = (xl - p.v[0]) / p.v[1]; return (double)(z < 0 ? 0.5L * std::exp(z) : 1 - 0.5L * std::exp(-z)); }
    case STUDENT: { double n = a, t = std::fabs(x), q; if (t > 1e150) q = 0; else q = t * t > n ? 0.5 * bm::ibeta(n / 2, 0.5, n / (n + t * t), Pol()) : 0.5 * bm::ibetac(0.5, n / 2, t * t / (n + t * t), Pol()); return x < 0 ? q : 1 - q; }
    case WEIBULL: return xl <= 0 ? 0 : (double)-std::expm1(-std::pow(xl / p.v[1], p.v[0]));
    case NCCHI2: return x <= 0 ? 0 : bm::cdf(bm::non_central_chi_squared_distribution<double, Pol>(a, b), x);
    case HYPEREXP: { ld s = 0, r = 0; for (std::size_t i = 0; i < p.w.size(); ++i) { s += p.w[i]; r += p.w[i] * (xl <= 0 ? 0 : -std::expm1(-xl * p.v[i])); } return (double)(r / s); }
    case PCONST: { ld s = 0, r = 0; for (std::size_t i = 0; i < p.w.size(); ++i) { s += p.w[i]; ld t = (xl - p.b[i]) / (p.b[i + 1] - p.b[i]); r += p.w[i] * std::min(1.0L, std::max(0.0L, t)); } return (double)(r / s); }
    case PLINEAR: { ld s = 0, r = 0; for (std::size_t i = 0; i + 1 < p.w.size(); ++i) { ld w = p.b[i + 1] - p.b[i], t = std::min(1.0L, std::max(0.0L, (xl - p.b[i]) / w)), h = p.w[i] + (p.w[i + 1] - p.w[i]) * t; s += (p.w[i] + p.w[i + 1]) * w / 2; r += (p.w[i] + h) * t * w / 2; } return (double)(r / s); }
    case UNIFORM_REAL: return (double)((xl - p.v[0]) / (p.v[1] - p.v[0]));
    default: pbt::fail("harness: cdf"); }
    return 0;
}
double pmf(const IDist& d, const P& p, ld k) {
    if (k < 0) return 0;
    switch (d.kind) {
    case BERNOULLI: return (double)(k == 1 ? p.v[0] : k == 0 ? 1 - p.v[0] : 0);
    case BINOMIAL: { ld t = p.v[0], q = p.v[1]; if (k > t) return 0; if (q == 0) return k == 0; if (q == 1) return k == t; return (double)std::exp(lgammal(t + 1) - lgammal(k + 1) - lgammal(t - k + 1) + k * std::log(q) + (t - k) * log1pl(-q)); }
    case GEOMETRIC: return (double)(p.v[0] * std::exp(k * log1pl(-p.v[0])));
    case NEGBINOMIAL: { ld n = p.v[0], q = p.v[1]; if (n == 0 || q == 1) return k == 0; return (double)std::exp(lgammal(k + n) - lgammal(k + 1) - lgammal(n) + n * std::log(q) + k * log1pl(-q)); }
    case POISSON: return (double)std::exp(k * std::log(p.v[0]) - p.v[0] - lgammal(k + 1));
    case DISCRETE: { ld s = 0; for (ld w : p.w) s += w; return k < p.w.size() ? (double)(p.w[(std::size_t)k] / s) : 0; }
    default: pbt::fail("harness: pmf"); }
    return 0;
}
double cdf_int(const IDist& d, const P& p, ld k) {
    if (k < 0) return 0; k = std::floor(k);
    switch (d.kind) {
    case BERNOULLI: return k >= 1 ? 1 : (double)(1 - p.v[0]);
    case BINOMIAL: { double t = (double)p.v[0], q = (double)p.v[1]; if (k >= p.v[0] || q == 0) return 1; if (q == 1) return 0; return bm::ibetac((double)k + 1, t - (double)k, q, Pol()); }
    case GEOMETRIC: return (double)-std::expm1((k + 1) * log1pl(-p.v[0]));
    case NEGBINOMIAL: { if (p.v[0] == 0 || p.v[1] == 1) return 1; return bm::ibeta((double)p.v[0], (double)k + 1, (double)p.v[1], Pol()); }
    case POISSON: return bm::gamma_q((double)k + 1, (double)p.v[0], Pol());
    case DISCRETE: { ld s = 0, r = 0; for (std::size_t i = 0; i < p.w.size(); ++i) { s += p.w[i]; if (i <= k) r += p.w[i]; } return (double)(r / s); }
    default: pbt::fail("harness: cdf_int"); }
    return 0;
}
bool possible(const IDist& d, const P& p, ld x, std::string& why) {
    if (x != x) { why = "not a number"; return false; }
    ld a = p.v.size() > 0 ? p.v[0] : 0, b = p.v.size() > 1 ? p.v[1] : 0; bool inf = std::fabs(x) > d.huge, inf_ok = false; why = "outside the support";
    if (!d.real_result && x != std::floor(x)) { why = "not an integer"; return false; }
    switch (d.kind) {
    case TRIANGLE: return x >= a && x <= p.v[2];
    case NORMAL: if (b == 0 && x != a) return false; break;
    case LOGNORMAL: if (x < 0) return false; if (b == 0) { ld e = std::exp(a); if (e < d.huge / 2 && e > d.tiny / d.eps * 4 && std::fabs(x - e) > e * d.eps * 4) return false; } inf_ok = a + 45 * b > std::log(d.huge) - 1; if (x == 0 && a - 45 * b > std::log(d.tiny) + 1) return false; break;
    case EXPONENTIAL: case GAMMA: case CHI2: case NCCHI2: case WEIBULL: case HYPEREXP: if (x < 0) return false; inf_ok = d.kind == WEIBULL && a < 1; break;
    case BETA: return x >= 0 && x <= 1;
    case FISHER: if (x < 0) return false; inf_ok = b < 3; break;
    case STUDENT: inf_ok = a < 3; break;
    case CAUCHY: case LAPLACE: case EXTREME: break;
    case PCONST: { if (!(x >= p.b.front() && x <= p.b.back())) return false; bool ok = false; for (std::size_t i = 0; i < p.w.size(); ++i) ok = ok || (p.w[i] > 0 && x >= p.b[i] && x <= p.b[i + 1]); why = "in an interval of weight zero"; return ok; }
    case PLINEAR: { if (!(x >= p.b.front() && x <= p.b.back())) return false; bool ok = false; for (std::size_t i = 0; i + 1 < p.w.size(); ++i) ok = ok || ((p.w[i] > 0 || p.w[i + 1] > 0) && x >= p.b[i] && x <= p.b[i + 1]); why = "in an interval of weight zero"; return ok; }
    case BERNOULLI: if (a == 0 && x != 0) { why = "a success of probability zero"; return false; } if (a == 1 && x != 1) { why = "a failure of probability zero"; return false; } return x == 0 || x == 1;
    case BINOMIAL: if (b == 0) return x == 0; if (b == 1) return x == a; return x >= 0 && x <= a;
    case NEGBINOMIAL: if (a == 0 || b == 1) return x == 0; return x >= 0 && x <= d.imax;
    case GEOMETRIC: case POISSON: return x >= 0 && x <= d.imax;
    case DISCRETE: if (!(x >= 0 && x < p.w.size())) return false; why = "an outcome of weight zero"; return p.w[(std::size_t)x] > 0;
    case UNIFORM_INT: case UNIFORM_SMALLINT: return x >= a && x <= b;
    case UNIFORM_REAL: return x >= a && x < b;
    default: pbt::fail("harness: possible"); }
    if (inf && !inf_ok) { why = "infinite"; return false; }
    return true;
}
}
