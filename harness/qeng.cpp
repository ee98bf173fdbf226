// The reference: Sobol' by Joe and Kuo's direction numbers, Niederreiter's construction in base 2 as in
// Bratley, Fox and Niederreiter (TOMS 738), Faure's by binomial coefficients modulo a prime.
#include "qeng.hpp"
namespace vf {
static const u16 PUBLISHED[] = {
#include "sobol_published.inc"
0 };
const std::vector<QCfg>& qcfgs() { static std::vector<QCfg> v; if (v.empty()) { q_add_sobol(v); q_add_nied(v); q_add_faure(v); } return v; }
QTab& qtab() { static QTab t; return t; }
int q_degree(u64 p) { int d = -1; while (p) { ++d; p >>= 1; } return d; }
// start of the published row of each coordinate
static const std::vector<std::size_t>& rows() { static std::vector<std::size_t> r; if (r.empty()) { std::size_t i = 0; while (PUBLISHED[i]) { r.push_back(i); i += 1 + q_degree(PUBLISHED[i]); } } return r; }
// all polynomials over GF(2) without divisors, by a sieve
static const std::vector<u64>& irreducible() {
    static std::vector<u64> v; if (!v.empty()) return v; std::vector<bool> no(65536, false);
    for (u64 p = 2; p < 65536; ++p) { if (no[p]) continue; v.push_back(p); for (u64 q = 2; q_degree(p) + q_degree(q) < 16; ++q) { u64 r = 0; for (int i = 0; i < 16; ++i) if (q >> i & 1) r ^= p << i; no[r] = true; } }
    return v;
}
u64 q_poly(const QCfg& f, std::size_t d) {
    if (f.kind == SOBOL) { if (d == 0) return 0; return f.table ? qtab().poly[d - 1] : PUBLISHED[rows()[d - 1]]; }
    return f.table ? qtab().poly[d] : irreducible()[d];
}
std::size_t QCfg::maxdim() const {
    if (kind == FAURE) { if (table) return qtab().primes.empty() ? 1 : qtab().primes.back(); return seedmax < 1117 ? 0 : 1117; }
    if (table) { std::size_t n = qtab().poly.size() + (kind == SOBOL); return n < tabdim ? n : tabdim; }
    std::size_t n = kind == SOBOL ? 1 : 0; while (n < tabdim && q_poly(*this, n) <= polymax) ++n; return n;
}
std::vector<u64> q_columns(const QCfg& f, std::size_t d) {
    unsigned w = f.w; std::vector<u64> V(w);
    if (f.kind == SOBOL) {
        std::vector<u128> m(w, 1);
        if (d) {
            u64 p = q_poly(f, d); unsigned s = q_degree(p); const u16* row = f.table ? 0 : &PUBLISHED[rows()[d - 1]] + 1;
            for (unsigned k = 0; k < w; ++k) {
                if (k < s) { m[k] = row ? row[k] : qtab().m[d - 1][k]; continue; }
                // m_k = m_{k-s} + 2^s m_{k-s} + sum of 2^i a_i m_{k-i}, a_i the coefficient of x^(s-i)
                u128 x = m[k - s] ^ (p & 1 ? m[k - s] << s : 0); for (unsigned i = 1; i < s; ++i) if (p >> (s - i) & 1) x ^= m[k - i] << i; m[k] = x;
            }
        }
        for (unsigned r = 0; r < w; ++r) V[r] = (u64)(m[r] << (w - 1 - r)); return V;
    }
    u64 p = q_poly(f, d); int e = q_degree(p); u128 B = 1;
    for (unsigned j = 0; j < w; ++j) {
        unsigned u = j % e, q = j / e + 1; static std::vector<unsigned char> v;
        if (u == 0) { // next power of the polynomial, and the sequence it generates
            u128 n = 0; for (int i = 0; i <= e; ++i) if (p >> i & 1) n ^= B << i; B = n; unsigned g = e * q; v.assign(w + e + g, 0);
            for (unsigned r = 0; r < v.size(); ++r) { if (r < g) { v[r] = r >= g - e; continue; } unsigned char b = 0; for (unsigned k = 0; k < g; ++k) if (B >> k & 1) b ^= v[r + k - g]; v[r] = b; }
        }
        for (unsigned r = 0; r < w; ++r) V[r] |= (u64)v[r + u] << (w - 1 - j);
    }
    return V;
}
u64 q_base(const QCfg& f, std::size_t dim) { if (f.table) { for (unsigned p : qtab().primes) if (p >= dim) return p; return 0; } for (u64 b = 2;; ++b) { if (b < dim) continue; bool prime = true; for (u64 q = 2; q * q <= b; ++q) if (b % q == 0) prime = false; if (prime) return b; } }
u64 q_gray(const std::vector<u64>& V, u64 n) { u64 g = (n + 1) ^ ((n + 1) >> 1), x = 0; for (std::size_t r = 0; g; ++r, g >>= 1) if (g & 1) x ^= V[r]; return x; }
QModel::QModel(const QCfg& f_, std::size_t dim_) : f(f_), dim(dim_), base(0), col(dim_) { if (f.kind == FAURE) base = q_base(f, dim); }
std::vector<u64> QModel::digits(u64 n, std::size_t d) const {
    std::vector<u64> a; do { a.push_back(n % base); n /= base; } while (n); std::size_t L = a.size(); std::vector<u64> y(L);
    for (std::size_t j = 0; j < L; ++j) { // sum over l of binomial(l, j) d^(l-j) a_l
        std::vector<u64> row(1, 1); // binomial coefficients of row l modulo the base
        u64 s = 0, pw = 1; std::vector<u64> b(L, 0); b[0] = 1;
        for (std::size_t l = 0; l < L; ++l) { if (l) for (std::size_t i = l; i > 0; --i) b[i] = (b[i] + b[i - 1]) % base; if (l >= j) { s = (s + (u64)((u128)(b[j] * pw % base) * a[l] % base)) % base; pw = (u64)((u128)pw * (d % base) % base); } }
        y[j] = s;
    }
    return y;
}
ld QModel::at(u64 n, std::size_t d, ld& tol) {
    if (f.kind != FAURE) { tol = 0; static std::map<std::pair<const QCfg*, std::size_t>, std::shared_ptr<std::vector<u64> > > cache; std::shared_ptr<std::vector<u64> >& v = f.table ? col[d] : cache[std::make_pair(&f, d)]; if (!v) v.reset(new std::vector<u64>(q_columns(f, d))); return (ld)q_gray(*v, n); }
    std::vector<u64> y = digits(n, d); ld x = 0; for (std::size_t j = y.size(); j-- > 0; ) x = (x + y[j]) / base; tol = x * std::ldexp((ld)(2 * y.size() + 4), -(int)f.w); return x;
}
// polynomials of any degree from one, initial numbers odd and of their length; primes anywhere
void q_generate_table(Ctx& c, const QCfg& f, std::size_t dims) {
    QTab& t = qtab(); t = QTab(); if (!f.table) return;
    if (f.kind == FAURE) { static const unsigned P[] = { 2, 3, 5, 7, 11, 31, 97, 251, 257, 509, 1021, 1031, 4093, 8191, 16381, 32749, 65521 }; std::size_t n = c.s.choose(3), i = c.s.choose(16 - n); for (std::size_t k = 0; k <= n; ++k) t.primes.push_back(P[i + k]); return; }
    u64 vt = f.name.find("table of u64") != std::string::npos ? ~0ull : f.name.find("table of u32") != std::string::npos ? 0xffffffffull : 0xffffull; u64 lim = std::min(vt, f.polymax); int maxdeg = q_degree(lim);
    for (std::size_t i = 0; i < dims; ++i) {
        int e = 1 + (int)(c.s.chance(1, 3) ? c.s.choose(maxdeg - 1) : c.s.choose(std::min(maxdeg - 1, 9))); if (f.kind == NIED && e > 63) e = 63; u64 p = ((u64)1 << e) | c.s.choose(((u64)1 << e) - 1); if (f.kind == SOBOL) p |= 1; t.poly.push_back(p);
        std::vector<u64> m; for (int k = 0; k < e; ++k) { u64 x = c.s.choose(k >= 63 ? ~0ull : ((u64)2 << k) - 1) | 1; m.push_back(x & lim); } t.m.push_back(m);
    }
}
std::size_t q_dim(Ctx& c, const QCfg& f, std::size_t cap) { std::size_t m = std::min(f.maxdim(), cap); u64 k = c.s.choose(5); if (k == 0) return std::min<std::size_t>(m, 1 + c.s.choose(2)); if (k < 4) return 1 + c.s.choose(std::min<std::size_t>(m, 12) - 1); if (k == 4) return m - c.s.choose(std::min<std::size_t>(m - 1, 3)); return 1 + c.s.choose(m - 1); }
u64 q_vector(Ctx& c, const QCfg& f, std::size_t dim) {
    u64 last = f.last; if (f.sgn) last /= 2;
    if (f.kind == FAURE && c.s.chance(1, 3)) { u64 b = q_base(f, dim), x = 1; u64 k = c.s.choose(63); for (u64 i = 0; i < k && x <= last / b; ++i) x *= b; u64 m = 1 + c.s.choose(b - 2); if (x <= last / m) x *= m; u64 o = c.s.choose(2); return x - 1 <= last - 2 ? x + o - 1 : x; }
    return c.s.special(last);
}
}
