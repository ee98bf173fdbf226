// Statistics used as oracles. Thresholds are so far out that a correct generator does not reach them in the
// lifetime of this suite (about 1e-12 per test); every test is deterministic in the seed anyway.
#ifndef VERIF_STAT_HPP
#define VERIF_STAT_HPP
#include "pbt.hpp"
#include <algorithm>
namespace vf {
// Kolmogorov-Smirnov distance times sqrt(n) of sorted cdf values; p(4) ~ 2.5e-14
inline double ks(std::vector<double>& u) { std::sort(u.begin(), u.end()); double n = (double)u.size(), d = 0; for (std::size_t i = 0; i < u.size(); ++i) d = std::max(d, std::max((i + 1) / n - u[i], u[i] - i / n)); return d * std::sqrt(n); }
// Wilson-Hilferty: chi-square as a normal deviate; thin classes are merged with their neighbours
inline double chi2z(std::vector<double> obs, std::vector<double> expected, double least = 8) {
    std::vector<double> o, e; double ao = 0, ae = 0; for (std::size_t i = 0; i < obs.size(); ++i) { ao += obs[i]; ae += expected[i]; if (ae >= least) { o.push_back(ao); e.push_back(ae); ao = ae = 0; } }
    if (!o.empty()) { o.back() += ao; e.back() += ae; }
    if (o.size() < 2) return 0; double x = 0, df = o.size() - 1.0; for (std::size_t i = 0; i < o.size(); ++i) x += (o[i] - e[i]) * (o[i] - e[i]) / e[i];
    return (std::pow(x / df, 1.0 / 3) - (1 - 2.0 / (9 * df))) / std::sqrt(2.0 / (9 * df));
}
// successive values: 8x8 cells of pairs, cdf values in [0,1]
inline double pairs_z(const std::vector<double>& u, std::size_t lag = 1) { std::vector<double> o(64, 0.0); double n = 0; for (std::size_t i = 0; i + lag < u.size(); i += lag + 1) { int a = std::min(7, (int)(u[i] * 8)), b = std::min(7, (int)(u[i + lag] * 8)); ++o[a * 8 + b]; ++n; } return chi2z(o, std::vector<double>(64, n / 64)); }
}
#endif
