// Parameters of every distribution: ordinary, at switch-over points and extreme.
#include "dist.hpp"
namespace vf {
static ld rnd(int digits, ld x) { return digits == 24 ? (ld)(float)x : digits == 53 ? (ld)(double)x : x; }
static ld mag(Ctx& c, int digits, int elo, int ehi) { ld m; switch (c.s.choose(2)) { case 0: m = 1; break; case 1: m = 1 + (ld)c.s.u01(); break; default: m = 2 - std::ldexp(1.0L, 1 - digits); } return rnd(digits, std::ldexp(m, (int)c.s.irange(elo, ehi))); }
// a positive scale
static ld scale(Ctx& c, const IDist& d, bool wide) {
    switch (c.s.choose(3)) { case 0: return (ld)(1 + c.s.choose(9)); case 1: return rnd(d.digits, (ld)c.s.logu(0.01, 100)); default: return wide ? mag(c, d.digits, d.minexp + 4, d.maxexp - 10) : mag(c, d.digits, -20, 20); }
}
static ld where(Ctx& c, const IDist& d, ld s, bool wide) { // a location, not so large that the spread s is lost in it
    switch (c.s.choose(3)) { case 0: return 0; case 1: return rnd(d.digits, s * (ld)c.s.irange(-10, 10)); case 2: if (wide) { ld x = mag(c, d.digits, d.minexp + 4, d.maxexp - 10); return c.s.coin() ? x : -x; } // fallthrough
    default: return rnd(d.digits, s * (ld)((c.s.u01() - 0.5) * (d.digits == 24 ? 20 : 2000))); }
}
static ld shape(Ctx& c, const IDist& d, bool wide, ld lo, ld hi) {
    ld x; switch (c.s.choose(5)) { case 0: x = (ld)(1 + c.s.choose(19)); break; case 1: x = 1 + (ld)c.s.irange(-3, 3) * d.eps; break; case 2: x = (ld)c.s.u01(); break; case 3: x = 0.5L * (1 + c.s.choose(9)); break; case 4: x = (ld)c.s.logu((double)lo, (double)hi); break; default: x = wide ? mag(c, d.digits, -12, d.digits / 2 + 4) : (ld)c.s.logu(0.2, 20); }
    x = rnd(d.digits, x); if (x < lo) x = rnd(d.digits, lo + (ld)c.s.u01() * lo); if (x > hi) x = rnd(d.digits, hi - (ld)c.s.u01() * hi / 2); return x;
}
static ld prob(Ctx& c, const IDist& d, bool wide) {
    ld x; switch (c.s.choose(7)) { case 0: x = wide ? 0 : (ld)c.s.logu(1e-4, 1); break; case 1: x = wide ? 1 : (ld)c.s.u01(); break; case 2: x = 0.5L; break; case 3: x = 0.5L + (ld)c.s.irange(-3, 3) * d.eps; break; case 4: x = wide ? d.tiny : 0.1L * (1 + c.s.choose(8)); break; case 5: x = wide ? 1 - d.eps / 2 : 1 - (ld)c.s.logu(1e-4, 1); break; case 6: x = (ld)c.s.logu(1e-6, 1); break; default: x = (ld)c.s.u01(); }
    x = rnd(d.digits, x); if (x > 1) x = 1; if (!wide && x <= 0) x = 0.25L; return x;
}
static void weights(Ctx& c, const IDist& d, P& p, bool wide, bool positive) {
    std::size_t n = c.s.chance(1, 8) ? 1 : 1 + c.s.choose(c.s.chance(1, 6) ? 99 : 7); int kind = (int)c.s.choose(5), same = (int)c.s.choose(3); p.w.clear();
    for (std::size_t i = 0; i < n; ++i) {
        ld x; if (!d.real_weights) { u64 mx = d.wdigits >= 64 ? ~0ull : ((u64)1 << d.wdigits) - 1;
            switch (kind) { case 0: x = (ld)c.s.choose(10); break; case 1: x = (ld)c.s.choose(1000 < mx ? 1000 : mx); break; case 2: x = c.s.coin() ? 0 : 1; break; case 3: x = same ? 7 : (ld)c.s.choose(3); break; case 4: x = wide ? (ld)(mx - c.s.choose(2)) : (ld)c.s.choose(20); break; default: x = (ld)(wide ? c.s.special(mx) : c.s.choose(100)); }
        } else switch (kind) { case 0: x = (ld)c.s.choose(10); break; case 1: x = rnd(d.wdigits, (ld)c.s.u01()); break; case 2: x = c.s.coin() ? 0 : 1; break; case 3: x = same ? rnd(d.wdigits, 0.1L) : (ld)c.s.choose(3); break; case 4: x = c.s.chance(1, 5) ? 0 : mag(c, d.wdigits, wide ? -60 : -8, wide ? 60 : 3); break; default: x = c.s.chance(1, 3) ? 0 : rnd(d.wdigits, (ld)c.s.logu(1e-3, 1e3)); }
        p.w.push_back(x);
    }
    ld sum = 0; for (std::size_t i = 0; i < n; ++i) sum += p.w[i]; if (positive && sum == 0) p.w[c.s.choose(n - 1)] = 1;
}
P gen_params(Ctx& c, const IDist& d, bool wide) {
    int D = d.digits; bool f = D == 24; P p;
    switch (d.kind) {
    case TRIANGLE: { ld s = wide ? mag(c, D, d.minexp / 2 + 4, d.maxexp / 2 - 4) : scale(c, d, false), a = rnd(D, s * (ld)c.s.irange(-5, 5)), b = rnd(D, a + s * (ld)(c.s.chance(1, 4) ? 0 : c.s.u01())), e = rnd(D, b + s * (ld)(c.s.chance(1, 4) ? 0 : c.s.u01())); if (c.s.chance(1, 4)) { a = -1; b = 0; e = 1; } if (wide && c.s.chance(1, 10)) b = e = a; if (a == e && !wide) e = rnd(D, a + s); if (b > e) b = e; return P(a, b, e); }
    case NORMAL: { ld s = c.s.chance(1, 8) && wide ? 0 : scale(c, d, wide); return P(where(c, d, s, wide), s); }
    case LOGNORMAL: { if (!wide) return P(rnd(D, (ld)c.s.irange(-50, 50) / 10), rnd(D, (ld)c.s.logu(0.02, 5))); ld s = c.s.chance(1, 8) ? 0 : rnd(D, (ld)c.s.logu(1e-3, f ? 4 : 40)); return P(rnd(D, (ld)c.s.irange(-600, 600) / (f ? 10 : 1)), s); }
    case EXPONENTIAL: return P(wide && c.s.chance(1, 10) ? d.huge : scale(c, d, wide));
    case GAMMA: return wide ? P(shape(c, d, true, 1e-3L, f ? 1e4L : 1e9L), c.s.coin() ? 1 : mag(c, D, d.minexp / 2, d.maxexp / 2)) : P(shape(c, d, false, f ? 0.1L : 0.02L, f ? 1e3L : 1e6L), scale(c, d, false));
    case BETA: return wide ? P(shape(c, d, true, 1e-4L, f ? 1e3L : 1e6L), shape(c, d, true, 1e-4L, f ? 1e3L : 1e6L)) : P(shape(c, d, false, f ? 0.1L : 0.02L, 1e4L), shape(c, d, false, f ? 0.5L : 0.2L, 1e4L));
    case CHI2: return P(shape(c, d, wide, wide ? 1e-3L : f ? 0.2L : 0.04L, f ? 2e3L : 1e6L));
    case FISHER: return P(shape(c, d, wide, wide ? 1e-3L : 0.3L, f ? 1e3L : 1e5L), shape(c, d, wide, wide ? 1e-3L : 0.3L, f ? 1e3L : 1e5L));
    case STUDENT: return P(shape(c, d, wide, wide ? 1 : 0.2L, f ? 1e3L : 1e6L));
    case NCCHI2: return P(shape(c, d, wide, wide ? 0.05L : 0.2L, 200), wide ? (c.s.coin() ? rnd(D, (ld)c.s.logu(1e-3, 1e6)) : mag(c, D, -20, 24)) : rnd(D, (ld)c.s.logu(0.05, f ? 200 : 1000)));
    case CAUCHY: case LAPLACE: case EXTREME: { ld s = wide ? mag(c, D, d.minexp + 4, d.maxexp - 70) : scale(c, d, false); if (c.s.coin()) s = 1; return P(where(c, d, s, wide), s); }
    case WEIBULL: return wide ? P(shape(c, d, true, f ? 0.2L : 0.05L, f ? 1e3L : 1e6L), scale(c, d, false)) : P(shape(c, d, false, 0.1L, 100), scale(c, d, false));
    case HYPEREXP: { weights(c, d, p, wide, true); for (std::size_t i = 0; i < p.w.size(); ++i) p.v.push_back(wide ? scale(c, d, false) : rnd(D, (ld)c.s.logu(0.05, 20))); return p; }
    case PCONST: case PLINEAR: {
        weights(c, d, p, wide, true); if (d.kind == PLINEAR) { p.w.push_back(c.s.coin() ? 0 : p.w[0]); ld m = 0; for (ld x : p.w) m = std::max(m, x); if (m == 0) p.w[0] = 1; }
        std::size_t nb = d.kind == PCONST ? p.w.size() + 1 : p.w.size(); int kind = (int)c.s.choose(2); ld x = kind == 0 ? 0 : (ld)c.s.irange(-50, 50);
        for (std::size_t i = 0; i < nb; ++i) { p.b.push_back(x); if (kind < 2) x += 1; else { ld nx = rnd(D, x + (ld)c.s.logu(f ? 1e-2 : 1e-4, 1e2)); x = nx > x ? nx : rnd(D, x + 1); } }
        return p; }
    case BERNOULLI: return P(prob(c, d, wide));
    case BINOMIAL: { ld q = prob(c, d, wide), t; ld cap = wide ? d.imax : std::min(d.imax, f ? 20000.0L : 1e9L); switch (c.s.choose(4)) { case 0: t = (ld)c.s.choose(40); break; case 1: { ld r = std::min(q, 1 - q); t = r > 0 ? std::floor((9 + (ld)c.s.u01() * 4) / r) : 10; break; } case 2: t = (ld)c.s.choose(2000); break; case 3: t = wide ? cap - (ld)c.s.choose(2) : (ld)(u64)c.s.logu(1, (double)cap); break; default: t = wide ? (ld)c.s.special((u64)cap) : (ld)c.s.choose(200); }
        if (t > cap) t = cap; if (t < 0) t = 0; return P(t, q); }
    case GEOMETRIC: { ld lo = std::max(120 / d.imax, wide ? 1e-9L : f ? 1e-3L : 1e-6L), x = prob(c, d, wide); if (x < lo) x = rnd(D, lo * (1 + (ld)c.s.u01())); if (x >= 1) x = rnd(D, 1 - d.eps); return P(x); }
    case NEGBINOMIAL: { ld x = prob(c, d, wide), cap = wide ? d.imax / 4 : std::min(d.imax / 8, 1e6L), k; switch (c.s.choose(3)) { case 0: k = (ld)c.s.choose(12); break; case 1: k = wide ? (ld)c.s.special((u64)std::min(d.imax, f ? 1e4L : 1e6L)) : (ld)c.s.choose(60); break; case 2: k = 1; break; default: k = (ld)c.s.choose(300); } if (!wide && k == 0) k = 1; if (!wide && x > 0.999L) x = 0.5L;
        ld lo = (k + 1500 + 60 * std::sqrt(k)) / cap; if (lo > 0.9L) { k = 1; lo = (ld)1561 / cap; } if (x < lo) x = rnd(D, std::min(1.0L, lo * (1 + (ld)c.s.u01()))); return P(k, x); }
    case POISSON: { ld cap = wide ? d.imax / 8 : std::min(d.imax / 8, f ? 1e4L : 1e8L), x; switch (c.s.choose(4)) { case 0: x = 9.5L + (ld)c.s.u01(); break; case 1: x = 10 + (ld)c.s.irange(-2, 2) * d.eps * 8; break; case 2: x = (ld)(1 + c.s.choose(30)); break; case 3: x = (ld)c.s.logu(1e-3, 30); break; default: x = wide ? mag(c, D, -30, 60) : (ld)c.s.logu(0.1, (double)cap); } x = rnd(D, x); if (x > cap) x = rnd(D, cap); return P(x); }
    case DISCRETE: weights(c, d, p, wide, true); return p;
    case UNIFORM_INT: case UNIFORM_SMALLINT: { u64 off = (u64)c.s.special(), off2 = (u64)c.s.special(); ld w = d.imax - d.imin, lo, hi; u64 wm = w >= 18446744073709551615.0L ? ~0ull : (u64)w; off = wm == ~0ull ? off : off % (wm + 1); off2 = wm == ~0ull ? off2 : off2 % (wm + 1); if (off2 < off) std::swap(off, off2); lo = d.imin + (ld)off; hi = d.imin + (ld)off2; if (d.kind == UNIFORM_SMALLINT && hi - lo > 200) hi = lo + (ld)c.s.choose(200); if (hi > d.imax) hi = d.imax; return P(lo, hi); }
    case UNIFORM_REAL: { ld s = scale(c, d, wide), a = where(c, d, s, wide), b = rnd(D, a + s); if (!(b > a)) b = rnd(D, a + std::fabs(a) * d.eps * 4); if (!(b > a) || !std::isfinite(a) || !std::isfinite(b) || !std::isfinite(rnd(D, b - a))) { a = rnd(D, (ld)c.s.irange(-3, 3)); b = a + 1; } return P(a, b); }
    default: pbt::fail("harness: kind"); }
    return p;
}
}
