// Q01: quasi-random sequences equal the published point sets.
#include "qeng.hpp"
const char* pbt_rule = "a case counts as non-trivial when at least one whole vector beyond the first was compared with the published construction; distinctness is over engine type, tables, dimension, positions and way of arriving";
namespace vf {
static const QCfg& pick(Ctx& c, int table) { static std::vector<std::vector<const QCfg*> > v; if (v.empty()) { v.resize(2); for (const QCfg& f : qcfgs()) v[f.table].push_back(&f); } const std::vector<const QCfg*>& l = v[table]; return *l[c.enumerate(l.size())]; }
static void same(Ctx& c, const std::string& w, QModel& m, u64 n, std::size_t d, ld v) {
    ld tol, x = m.at(n, d, tol);
    REQUIRE(c, std::fabs(v - x) <= tol, w << ": coordinate " << d << " of vector " << n << " is " << v << ", the published construction gives " << x);
    REQUIRE(c, m.f.kind != FAURE ? v >= m.f.lo && v <= m.f.hi : v >= 0 && (v < 1 || n > ((u64)1 << (m.f.w - 3))), w << ": coordinate " << d << " of vector " << n << " is " << v << ", outside the bounds");
}
// some vectors anywhere
static void vectors(Ctx& c, const QCfg& f, std::size_t cap, std::size_t many) {
    std::size_t dim = q_dim(c, f, cap); std::string w = show(f, dim); NOTE(c, w); QP e = f.make(dim); REQUIRE(c, e->dim() == dim, w << ": dimension() is " << e->dim()); QModel m(f, dim); std::size_t k = 1 + c.s.choose(many - 1); bool big = false;
    for (std::size_t i = 0; i < k; ++i) {
        u64 n = q_vector(c, f, dim), run = 1 + c.s.choose(dim > 50 ? 1 : 20); int how = (int)c.s.choose(3); NOTE(c, "vectors from " << n << " on");
        if (how == 0 && n < (~0ull >> 14)) { e->seed(); e->discard(n * dim); } else if (how == 1) { QP o = f.make(dim); o->seed(n); e->assign(*o); } else e->seed(n);
        for (u64 r = 0; r < run && r <= f.last - n; ++r) { std::vector<ld> v(dim); e->block(v.data(), dim, (int)c.s.choose(2)); for (std::size_t d = 0; d < dim; ++d) same(c, w, m, n + r, d, v[d]); big = big || n + r > 0; }
    }
    c.label(f.name); c.label(dim < 4 ? "dimension below 4" : dim < 13 ? "dimension 4 to 12" : "larger dimension"); c.nontrivial(big);
}
static void some(Ctx& c) { const QCfg& f = pick(c, 0); qtab() = QTab(); vectors(c, f, 60, 6); }
static void custom(Ctx& c) { const QCfg& f = pick(c, 1); q_generate_table(c, f, 12); vectors(c, f, 40, 4); }
// all dimensions
static void whole(Ctx& c) {
    static std::vector<const QCfg*> l; if (l.empty()) for (const QCfg& f : qcfgs()) if (!f.table && f.w > 16) l.push_back(&f); const QCfg& f = *l[c.enumerate(l.size())]; std::size_t dim = f.maxdim() - (c.s.chance(1, 3) ? c.s.choose(f.maxdim() - 1) : 0);
    std::string w = show(f, dim); NOTE(c, w); QP e = f.make(dim); QModel m(f, dim); u64 n = q_vector(c, f, dim); NOTE(c, "vector " << n); e->seed(n); std::vector<ld> v(dim); e->block(v.data(), dim, 1); for (std::size_t d = 0; d < dim; ++d) same(c, w, m, n, d, v[d]);
    if (n < f.last) { std::size_t k = c.s.choose(dim - 1); e->discard(k); same(c, w, m, n + 1, k, e->call()); } c.label(f.name); c.nontrivial(n > 0);
}
// every bit of every direction number, as differences of vectors: vector 2^r - 1 follows 2^r - 2
static void columns(Ctx& c) {
    static std::vector<const QCfg*> l; if (l.empty()) for (const QCfg& f : qcfgs()) if (!f.table && f.kind != FAURE) l.push_back(&f); const QCfg& f = *l[c.enumerate(l.size())]; qtab() = QTab(); std::size_t M = f.maxdim(), dim = c.s.chance(1, 2) ? M : q_dim(c, f, M); 
    std::string w = show(f, dim); NOTE(c, w); QP e = f.make(dim); QModel m(f, dim); unsigned r = (unsigned)c.s.choose(f.w - 1); NOTE(c, "direction number " << r); std::vector<ld> a(dim), b(dim, 0); u64 n = ((u64)1 << r) - 1;
    if (n) { e->seed(n - 1); e->block(b.data(), dim, 1); } if (n <= f.last) { e->block(a.data(), dim, 1); for (std::size_t d = 0; d < dim; ++d) { if (n) same(c, w, m, n - 1, d, b[d]); same(c, w, m, n, d, a[d]); } } c.label(f.name); c.nontrivial(n > 0);
}
// the whole sequence of short ones, the start of long ones, fresh or seeded again
static void start(Ctx& c) {
    const QCfg& f = pick(c, c.s.choose(3) == 0); q_generate_table(c, f, 12); std::size_t dim = q_dim(c, f, 30); std::string w = show(f, dim); NOTE(c, w); QP e = f.make(dim); if (c.s.coin()) { for (u64 k = std::min<u64>(c.s.choose(20), dim * (f.last > 19 ? 20 : f.last + 1)); k; --k) e->call(); if (c.s.coin()) e->seed(q_vector(c, f, dim)); e->seed(); } QModel m(f, dim);
    u64 N = std::min<u64>(f.last, 4000 / dim); std::vector<ld> v(dim); for (u64 n = 0; n <= N; ++n) { e->block(v.data(), dim, (int)(n % 3)); for (std::size_t d = 0; d < dim; ++d) same(c, w, m, n, d, v[d]); } c.label(f.name); c.nontrivial(N > 0);
}
// points of the unit cube
static void unit(Ctx& c) {
    static std::vector<const QCfg*> l; if (l.empty()) for (const QCfg& f : qcfgs()) if (!f.table && (f.kind == FAURE ? f.w == 53 : f.w <= 48)) l.push_back(&f); const QCfg& f = *l[c.enumerate(l.size())]; qtab() = QTab(); std::size_t dim = q_dim(c, f, 30); int kind = (int)c.s.choose(2); static const char* const K[] = { "uniform_01", "uniform_real_distribution(0, 1)", "variate_generator of uniform_01" }; std::string w = std::string(K[kind]) + " over " + show(f, dim); NOTE(c, w); QP e = f.make(dim); QModel m(f, dim); u64 n = q_vector(c, f, dim); if (f.kind == FAURE) n >>= f.seedmax > 0xffffffffu ? 14 : 0; NOTE(c, "from vector " << n << " on"); e->seed(n);
    for (u64 r = 0; r < 3 && r <= f.last - n; ++r) for (std::size_t d = 0; d < dim; ++d) { ld tol, x = m.at(n + r, d, tol); if (f.kind != FAURE) { x = std::ldexp(x, -(int)f.w); tol = 0; } double v = e->u01(kind); REQUIRE(c, std::fabs(v - x) <= tol, w << ": coordinate " << d << " of vector " << n + r << " is " << v << ", the published construction gives " << x); } c.label(f.name); c.nontrivial();
}
}
namespace pbt { void register_checks() {
    add("start", 3000, 30000, vf::start);
    add("some", 20000, 300000, vf::some);
    add("custom", 20000, 300000, vf::custom);
    add("whole", 400, 6000, vf::whole);
    add("columns", 700, 12000, vf::columns);
    add("unit", 10000, 100000, vf::unit);
} }
