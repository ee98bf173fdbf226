// Does a long run of values follow a law? The cells are the order statistics of a first, independent run, so
// only the distribution function is needed, and only where values actually fall.
#ifndef VERIF_LAW_HPP
#define VERIF_LAW_HPP
#include "dist.hpp"
#include "stat.hpp"
#include <functional>
namespace vf {
struct Law {
    std::vector<ld> cut; std::vector<double> F;     // F[i] = P(X <= cut[i])
    std::vector<ld> oct; std::vector<double> G;
    double n, runs; std::vector<double> obs, pair1, pair2; ld last[3]; double seen;
    // slack(b): how much of the probability rounding could move across b
    Law() : n(0), runs(0), seen(0) {}
    void cells(std::vector<ld> v, const std::function<double(ld)>& cdf, const std::function<double(ld)>& slack, double N, bool all_distinct = false) {
        std::sort(v.begin(), v.end()); std::size_t m = v.size(); std::vector<std::size_t> at; std::size_t e[] = { 0, 1, 3, 6, 12, 25, 50, 100, 200, 400 };
        for (std::size_t i = 0; i < 10; ++i) if (e[i] < m / 60) { at.push_back(e[i]); at.push_back(m - 1 - e[i]); }
        for (std::size_t i = 1; i < 60; ++i) at.push_back(i * m / 60);
        if (all_distinct) for (std::size_t i = 0; i < m; i += std::max<std::size_t>(1, m / 2000)) at.push_back(i);
        std::sort(at.begin(), at.end()); double before = 0;
        for (std::size_t i = 0; i < at.size(); ++i) { ld x = v[at[i]]; if (std::fabs(x) > 1e4900L || (!cut.empty() && x <= cut.back())) continue; double f = cdf(x); if (!(f > before) || f >= 1) continue; if (slack(x) > 0.03 * std::sqrt(f * (1 - f) / N)) continue; if ((f - before) * N < 30 || (1 - f) * N < 30) continue; cut.push_back(x); F.push_back(f); before = f; }
        before = 0; for (std::size_t i = 1; i < 8; ++i) { ld x = v[i * m / 8]; double f = cdf(x); if (!oct.empty() && x <= oct.back()) continue; if (!(f - before > 0.02) || 1 - f < 0.02) continue; oct.push_back(x); G.push_back(f); before = f; }
        obs.assign(cut.size() + 1, 0.0); pair1.assign((oct.size() + 1) * (oct.size() + 1), 0.0); pair2 = pair1;
    }
    std::size_t o8(ld x) const { return std::lower_bound(oct.begin(), oct.end(), x) - oct.begin(); }
    void take(const ld* v, std::size_t k) {
        std::size_t w = oct.size() + 1; n += (double)k; for (std::size_t i = 0; i < k; ++i) ++obs[std::lower_bound(cut.begin(), cut.end(), v[i]) - cut.begin()];
        for (std::size_t i = 0; i + 5 <= k; i += 5) { ++pair1[o8(v[i]) * w + o8(v[i + 1])]; ++pair2[o8(v[i + 2]) * w + o8(v[i + 4])]; }
    }
    double chi2() const { std::vector<double> e; double b = 0; for (std::size_t i = 0; i <= F.size(); ++i) { double f = i < F.size() ? F[i] : 1; e.push_back((f - b) * n); b = f; } return chi2z(obs, e, 20); }
    double distance() const { double d = 0, s = 0; for (std::size_t i = 0; i < F.size(); ++i) { s += obs[i]; d = std::max(d, std::fabs(s / n - F[i])); } return d * std::sqrt(n); }
    static double dependence(const std::vector<double>& o, std::size_t w) { // chi-square of independence given the margins
        std::vector<double> r(w, 0.0), q(w, 0.0); double t = 0, x = 0, df = 0; for (std::size_t i = 0; i < w; ++i) for (std::size_t j = 0; j < w; ++j) { r[i] += o[i * w + j]; q[j] += o[i * w + j]; t += o[i * w + j]; }
        if (t == 0) return 0; std::size_t nr = 0, nq = 0; for (std::size_t i = 0; i < w; ++i) { nr += r[i] > 0; nq += q[i] > 0; } if (nr < 2 || nq < 2) return 0; df = (nr - 1.0) * (nq - 1.0);
        for (std::size_t i = 0; i < w; ++i) for (std::size_t j = 0; j < w; ++j) { double e = r[i] * q[j] / t; if (e > 0) { if (e < 3) return 0; x += (o[i * w + j] - e) * (o[i * w + j] - e) / e; } }
        return (std::pow(x / df, 1.0 / 3) - (1 - 2.0 / (9 * df))) / std::sqrt(2.0 / (9 * df));
    }
    void judge(Ctx& c, const std::string& w) const {
        double d = distance(), z = chi2(); std::ostringstream o; if (d >= 4.2 || z >= 7.5) { double b = 0, worst = 0; std::size_t at = 0; for (std::size_t i = 0; i <= F.size(); ++i) { double f = i < F.size() ? F[i] : 1, e = (f - b) * n; b = f; double t = std::fabs(obs[i] - e) / std::sqrt(e); if (t > worst) { worst = t; at = i; } } double f0 = at ? F[at - 1] : 0, f1 = at < F.size() ? F[at] : 1; o << "; between " << (at ? cut[at - 1] : -1.0L / 0) << " and " << (at < cut.size() ? cut[at] : 1.0L / 0) << " " << obs[at] << " values of " << (f1 - f0) * n << " expected"; }
        REQUIRE(c, d < 4.2, w << ": " << n << " values do not follow the law, distance x sqrt(n) = " << d << o.str());
        REQUIRE(c, z < 7.5, w << ": " << n << " values do not follow the law, chi-square z = " << z << o.str());
        double p1 = dependence(pair1, oct.size() + 1), p2 = dependence(pair2, oct.size() + 1); REQUIRE(c, p1 < 7.5 && p2 < 7.5, w << ": successive values depend on each other, z = " << p1 << " and " << p2);
    }
};
inline double slack_of(const IDist& d, const P& p, ld b) {
    ld m = std::fabs(b); if (d.kind != GAMMA && d.kind != WEIBULL && d.kind != BETA) for (ld x : p.v) m = std::max(m, d.kind == NORMAL || d.kind == CAUCHY || d.kind == EXTREME || d.kind == LAPLACE || d.kind == TRIANGLE || d.kind == UNIFORM_REAL ? std::fabs(x) : 0.0L);
    for (ld x : p.b) m = std::max(m, std::fabs(x)); ld u = std::max(m * d.eps * 4, d.tiny * 4); return std::fabs(cdf(d, p, b + u) - cdf(d, p, b - u));
}
}
#endif
