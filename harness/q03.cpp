// Q03: quasi-random points are evenly stratified.
#include "qeng.hpp"
const char* pbt_rule = "a case counts as non-trivial when a block of at least four points was counted in boxes of at least two intervals; distinctness is over engine type, dimension, block and boxes";
namespace vf {
static std::vector<const QCfg*> engines(bool faure, unsigned minw) { std::vector<const QCfg*> l; for (const QCfg& f : qcfgs()) if (!f.table && (f.kind == FAURE) == faure && (faure || f.w >= minw)) l.push_back(&f); return l; }
static int deg(const QCfg& f, std::size_t d) { u64 p = q_poly(f, d); return p ? q_degree(p) : 1; }
// vectors number i*2^k - 1 to (i+1)*2^k - 2; the skipped zero vector comes first
static void block2(const QCfg& f, QP e, std::size_t dim, u64 i, unsigned k, std::vector<u64>& out) {
    u64 n = (u64)1 << k; out.assign(n * dim, 0); std::vector<ld> v(n * dim, 0); std::size_t off = 0; if (i == 0) off = dim; e->seed(i == 0 ? 0 : (i << k) - 1); if (v.size() > off) e->block(v.data() + off, v.size() - off, 1); for (std::size_t j = 0; j < v.size(); ++j) out[j] = (u64)v[j];
}
static u64 some_block(Ctx& c, const QCfg& f, unsigned k) { u64 m = f.w - k >= 64 ? ~0ull : ((u64)1 << (f.w - k)) - 1; return c.s.special(m); }
static void stratified2(Ctx& c, bool many) {
    static std::vector<const QCfg*> L = engines(false, 1), W = engines(false, 17); const QCfg& f = many ? *W[c.enumerate(W.size())] : *L[c.enumerate(L.size())]; std::size_t M = f.maxdim(); std::size_t dim = many ? M : q_dim(c, f, 200);
    unsigned kmax = std::min<unsigned>(f.w, many ? (c.thorough ? 11 : 8) : 14); while (kmax > 1 && ((u64)dim << kmax) > (c.thorough ? 40000000u : 2500000u)) --kmax; unsigned k = many ? kmax - (unsigned)c.s.choose(std::min(3u, kmax - 1)) : 1 + (unsigned)c.s.choose(kmax - 1); u64 i = some_block(c, f, k); u64 n = (u64)1 << k;
    std::string w = show(f, dim); NOTE(c, w << ", block " << i << " of 2^" << k << " points"); QP e = f.make(dim); std::vector<u64> v; block2(f, e, dim, i, k, v); std::vector<u32> cnt;
    for (std::size_t d = 0; d < dim; ++d) { // Sobol: one point per interval; Niederreiter: as far as the degree divides
        unsigned b = f.kind == SOBOL ? k : deg(f, d) * (k / deg(f, d)); cnt.assign((u64)1 << b, 0); for (u64 j = 0; j < n; ++j) { u64 x = v[j * dim + d]; ++cnt[b ? x >> (f.w - b) : 0]; } for (u64 j = 0; j < cnt.size(); ++j) REQUIRE(c, cnt[j] == n >> b, w << ", block " << i << " of 2^" << k << " points: interval " << j << " of 2^" << b << " of coordinate " << d << " has " << cnt[j] << " points instead of " << (n >> b)); }
    c.label(f.name); c.label("k=" + str(k)); c.nontrivial(k > 1);
}
static void one2(Ctx& c) { stratified2(c, false); }
static void all2(Ctx& c) { stratified2(c, true); }
// all coordinates together, in blocks so long that every number of the tables matters
static void deep2(Ctx& c) {
    static std::vector<const QCfg*> W = engines(false, 20); const QCfg& f = *W[c.enumerate(W.size())]; std::size_t dim = f.maxdim(); unsigned k = f.kind == SOBOL ? 15 + (unsigned)c.s.choose(c.thorough ? 1 : 0) : 13 + (unsigned)c.s.choose(2); u64 i = some_block(c, f, k), n = (u64)1 << k; std::string w = show(f, dim); NOTE(c, w << ", block " << i << " of 2^" << k << " points");
    QP e = f.make(dim); e->seed(i == 0 ? 0 : (i << k) - 1); std::vector<u64> from(dim + 1, 0); std::vector<unsigned> b(dim); for (std::size_t d = 0; d < dim; ++d) { b[d] = f.kind == SOBOL ? k : deg(f, d) * (k / deg(f, d)); from[d + 1] = from[d] + ((u64)1 << b[d]); }
    std::vector<u16> cnt(from[dim], 0); std::vector<ld> v(dim, 0); for (u64 j = 0; j < n; ++j) { if (i || j) e->block(v.data(), dim, 1); for (std::size_t d = 0; d < dim; ++d) if (b[d]) ++cnt[from[d] + ((u64)v[d] >> (f.w - b[d]))]; }
    for (std::size_t d = 0; d < dim; ++d) if (b[d]) for (u64 j = from[d]; j < from[d + 1]; ++j) if (cnt[j] != n >> b[d]) REQUIRE(c, false, w << ", block " << i << " of 2^" << k << " points: interval " << j - from[d] << " of 2^" << b[d] << " of coordinate " << d << " has " << cnt[j] << " points instead of " << (n >> b[d]));
    c.evals += dim; c.label(f.name); c.label("k=" + str(k)); c.nontrivial();
}
// boxes in several coordinates: sides 2^-d with the sum of the d, rounded up to multiples of the degrees, at most k
static void boxes2(Ctx& c) {
    static std::vector<const QCfg*> L = engines(false, 3); const QCfg& f = *L[c.enumerate(L.size())]; std::size_t M = f.maxdim(), dim = std::min<std::size_t>(M, c.s.chance(1, 4) ? 1 + c.s.choose(200) : 2 + c.s.choose(12)); unsigned k = 1 + (unsigned)c.s.choose(std::min(f.w, dim > 16 ? 10u : 14u) - 1); u64 i = some_block(c, f, k), n = (u64)1 << k; std::string w = show(f, dim);
    NOTE(c, w << ", block " << i << " of 2^" << k << " points"); QP e = f.make(dim); std::vector<u64> v; block2(f, e, dim, i, k, v);
    for (int t = 0; t < 12; ++t) {
        std::vector<std::pair<std::size_t, unsigned> > side; unsigned left = k, bits = 0; std::size_t tries = 2 + c.s.choose(4);
        for (std::size_t q = 0; q < tries; ++q) { std::size_t d = c.s.choose(3) ? c.s.choose(std::min<std::size_t>(dim, 6) - 1) : c.s.choose(dim - 1); int g = deg(f, d); bool dup = false; for (auto& s : side) dup = dup || s.first == d; if (dup || (unsigned)g > left) continue; unsigned blocks = 1 + (unsigned)c.s.choose(q + 1 == tries ? left / g - 1 : std::min<unsigned>(left / g - 1, 3)); left -= blocks * g; unsigned b = blocks * g - (unsigned)(c.s.coin() ? 0 : c.s.choose(g - 1)); side.push_back(std::make_pair(d, b)); bits += b; }
        if (side.empty()) continue; std::vector<u32> cnt((u64)1 << bits, 0); for (u64 j = 0; j < n; ++j) { u64 x = 0; for (auto& s : side) x = x << s.second | v[j * dim + s.first] >> (f.w - s.second); ++cnt[x]; }
        for (u64 j = 0; j < cnt.size(); ++j) if (cnt[j] != n >> bits) { std::ostringstream o; for (auto& s : side) o << " coordinate " << s.first << " in 2^" << s.second; REQUIRE(c, false, w << ", block " << i << " of 2^" << k << " points: box " << j << " of" << o.str() << " has " << cnt[j] << " points instead of " << (n >> bits)); }
        ++c.evals; c.nontrivial(side.size() > 1 && k > 1); c.label(str(side.size()) + " sides");
    }
    c.label(f.name);
}
// Faure: all elementary boxes in the prime base
static void faure(Ctx& c) {
    static std::vector<const QCfg*> L; if (L.empty()) for (const QCfg* f : engines(true, 0)) if (f->w >= 53) L.push_back(f); const QCfg& f = *L[c.enumerate(L.size())]; qtab() = QTab(); std::size_t dim = c.s.chance(1, 5) ? 1 + c.s.choose(140) : 1 + c.s.choose(12); u64 b = q_base(f, dim), last = f.sgn ? f.last / 2 : f.last; unsigned k = 0; u64 n = 1; unsigned want = 1 + (unsigned)c.s.choose(11); while (k < want && n * b * dim <= 300000 && n * b <= last) { n *= b; ++k; } if (k == 0) return;
    // the points are multiples of b^-h; keep them well inside the mantissa
    u64 cap = last; { ld lim = std::ldexp((ld)1, std::min<int>((int)f.w, 53) - 6); u64 x = 1; while ((ld)x * b < lim && x <= last / b) x *= b; cap = std::min(cap, x - 1); } if (cap < n) return; u64 i = c.s.special(cap / n - 1); u64 h = 0, r = (i + 1) * n - 1; do { ++h; r /= b; } while (r); u64 scale = 1; for (u64 q = 0; q < h; ++q) scale *= b;
    std::string w = show(f, dim); NOTE(c, w << ", block " << i << " of " << b << "^" << k << " points"); QP e = f.make(dim); e->seed(i * n); std::vector<ld> v(n * dim); e->block(v.data(), v.size(), 1); std::vector<u64> x(v.size()); for (std::size_t j = 0; j < v.size(); ++j) { ld y = v[j] * scale; x[j] = (u64)std::floor(y + 0.5L); REQUIRE(c, x[j] < scale && std::fabs(y - x[j]) < 0.2, w << ": coordinate " << j % dim << " of vector " << i * n + j / dim << " is " << v[j] << ", which is no fraction of " << b << "^" << h << " below one"); }
    for (std::size_t t = 0; t < dim + 12; ++t) {
        std::vector<std::pair<std::size_t, unsigned> > side; unsigned left = k, tot = 0; if (t < dim) { side.push_back(std::make_pair(t, k)); tot = k; } else for (std::size_t q = 0, m = 2 + c.s.choose(4); q < m && left; ++q) { std::size_t d = c.s.choose(dim - 1); bool dup = false; for (auto& s : side) dup = dup || s.first == d; if (dup) continue; unsigned g = 1 + (unsigned)c.s.choose(left - 1); side.push_back(std::make_pair(d, g)); left -= g; tot += g; }
        u64 boxes = 1; for (unsigned q = 0; q < tot; ++q) boxes *= b; std::vector<u32> cnt(boxes, 0); for (u64 j = 0; j < n; ++j) { u64 z = 0; for (auto& s : side) { u64 div = scale; for (unsigned q = 0; q < s.second; ++q) { z *= b; div /= b; } if (!div) div = 1; z += x[j * dim + s.first] / div; } ++cnt[z]; }
        for (u64 j = 0; j < boxes; ++j) if (cnt[j] != n / boxes) { std::ostringstream o; for (auto& s : side) o << " coordinate " << s.first << " in " << b << "^" << s.second; REQUIRE(c, false, w << ", block " << i << " of " << b << "^" << k << " points: box " << j << " of" << o.str() << " has " << cnt[j] << " points instead of " << n / boxes); }
        ++c.evals; c.nontrivial(n > 3);
    }
    c.label(f.name); c.label(dim == 1 ? "dimension 1" : "dimension above 1");
}
}
namespace pbt { void register_checks() {
    add("one2", 6000, 60000, vf::one2);
    add("all2", 130, 1000, vf::all2);
    add("deep2", 16, 160, vf::deep2);
    add("boxes2", 12000, 200000, vf::boxes2);
    add("faure", 6000, 60000, vf::faure);
} }
