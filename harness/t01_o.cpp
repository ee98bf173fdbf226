// What is neither engine nor distribution behind the type-erased views: seed sequences, bundles, canonical numbers, spheres; constant distributions that draw.
#include "t01.hpp"
#include <boost/random.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/random_number_generator.hpp>
namespace vf {
namespace br = boost::random;
struct OtherA : Actor {
    int kind; pbt::u64 seed; std::vector<std::pair<int, u64> > ops; std::function<void(int, u64, Out&)> f; std::function<void(OtherA&)> make;
    std::size_t size() const override { return ops.size(); }
    void start(Out&) override { make(*this); }
    void step(std::size_t i, Out& out) override { f(ops[i].first, ops[i].second, out); }
};
template<class G> static void many(G& g, u64 n, Out& out) { for (u64 i = 0; i < n; ++i) out.push_back((ld)g()); }
template<class E> static void sphere(OtherA& a) {
    typedef br::uniform_on_sphere<double> D; struct S { E e; D d; S(u64 s) : e((unsigned)s), d(1 + (int)(s % 7)) {} }; std::shared_ptr<S> s(new S(a.seed));
    a.f = [s](int k, u64 n, Out& out) { for (u64 i = 0; i < n; ++i) { std::vector<double> v = k == 0 ? s->d(s->e, D::param_type((int)(n % 5) + 1)) : s->d(s->e); out.insert(out.end(), v.begin(), v.end()); } if (k == 1) s->d.reset(); if (k == 2) s->d.param(D::param_type((int)(n % 6) + 1)); };
}
template<class E> static void canonical(OtherA& a) {
    std::shared_ptr<E> e(new E((unsigned)a.seed)); a.f = [e](int k, u64 n, Out& out) { for (u64 i = 0; i < n; ++i) switch (k % 3) { case 0: out.push_back((br::generate_canonical<double, 53>(*e))); break; case 1: out.push_back((br::generate_canonical<float, 24>(*e))); break; default: out.push_back((br::generate_canonical<long double, 64>(*e))); } };
}
static void sequence(OtherA& a) {
    std::vector<unsigned> w; for (u64 i = 0; i < a.seed % 9; ++i) w.push_back((unsigned)pbt::mix(a.seed + i)); std::shared_ptr<br::seed_seq> s(new br::seed_seq(w.begin(), w.end()));
    a.f = [s](int k, u64 n, Out& out) { std::vector<boost::uint32_t> v(n + 3); if (k == 0) { v.resize(s->size()); s->param(v.begin()); } else if (k == 1) { br::mt19937 e(*s); out.push_back(e()); } else s->generate(v.begin(), v.end()); out.insert(out.end(), v.begin(), v.end()); };
}
template<class E> static void bundle(OtherA& a) {
    struct S { E e; br::variate_generator<E&, br::normal_distribution<> > n; br::variate_generator<E, br::uniform_int_distribution<> > u; br::variate_generator<E*, br::gamma_distribution<> > g; br::random_number_generator<E> r; S(u64 s) : e((unsigned)s), n(e, br::normal_distribution<>(1, 2)), u(e, br::uniform_int_distribution<>(1, 6)), g(&e, br::gamma_distribution<>(0.5 + (double)(s % 4))), r(e) {} }; std::shared_ptr<S> s(new S(a.seed));
    a.f = [s](int k, u64 n, Out& out) { switch (k) { case 0: many(s->n, n, out); break; case 1: many(s->u, n, out); break; case 2: many(s->g, n, out); break; case 3: for (u64 i = 0; i < n; ++i) out.push_back((ld)s->r(1 + n)); break; default: many(s->e, n, out); } };
}
template<class E> static void old(OtherA& a) {
    struct S { E e; boost::uniform_01<E> u; boost::uniform_int<> i; boost::uniform_smallint<> m; boost::uniform_real<> r; S(u64 s) : e((unsigned)s), u(e), i(0, 9), m(0, 9), r(-1, 1) {} }; std::shared_ptr<S> s(new S(a.seed));
    a.f = [s](int k, u64 n, Out& out) { for (u64 j = 0; j < n; ++j) switch (k) { case 0: out.push_back(s->u()); break; case 1: out.push_back(s->i(s->e)); break; case 2: out.push_back(s->m(s->e)); break; case 3: out.push_back(s->r(s->e)); break; default: out.push_back((ld)s->i(s->e, (int)(n + 1))); } };
}
void gen_other(Ctx& c, Actors& r, std::size_t same) {
    int kind = (int)c.s.choose(8); for (std::size_t i = 0; i < same; ++i) { std::shared_ptr<OtherA> a(new OtherA); a->kind = kind; a->seed = c.s.choose(0xffffffffu); std::size_t n = 2 + c.s.choose(5); while (a->ops.size() < n) { int k = (int)c.s.choose(4); a->ops.push_back(std::make_pair(k, 1 + c.s.choose(6))); }
        switch (kind) { case 0: a->make = sphere<br::mt19937>; a->name = "uniform_on_sphere"; break; case 1: a->make = sphere<br::taus88>; a->name = "uniform_on_sphere"; break; case 2: a->make = canonical<br::minstd_rand>; a->name = "generate_canonical"; break; case 3: a->make = canonical<br::mt19937_64>; a->name = "generate_canonical"; break;
        case 4: a->make = sequence; a->name = "seed_seq"; break; case 5: a->make = bundle<br::mt19937>; a->name = "variate_generator"; break; case 6: a->make = bundle<br::rand48>; a->name = "variate_generator"; break; case 7: a->make = old<br::mt19937>; a->name = "uniform_01<Engine>"; break; default: a->make = old<br::minstd_rand0>; a->name = "uniform_01<Engine>"; }
        r.push_back(a); }
}
// a constant distribution shared by threads that have an engine each
template<class D, class E> static void draw_const(const D& d, E& e, Out& out, std::size_t n, std::true_type) { for (std::size_t i = 0; i < n; ++i) out.push_back((ld)d(e)); }
template<class D, class E> static void draw_const(const D& d, E& e, Out& out, std::size_t n, std::false_type) { D t(d); for (std::size_t i = 0; i < n; ++i) out.push_back((ld)t(e)); }
template<class D> static void constant(Ctx& c, const char* name, const D& d, void (*run)(std::size_t, const std::function<void(std::size_t)>&)) {
    typedef br::mt19937 E; std::size_t n = 2 + c.s.choose(2), m = 1 + c.s.choose(20); std::vector<unsigned> seed(n); for (unsigned& s : seed) s = (unsigned)c.s.choose(~0u); const typename D::param_type p = d.param();
    NOTE(c, "a constant " << name << " shared by " << n << " threads, " << m << " values each"); auto work = [&](std::size_t i, Out& out) { E e(seed[i]); draw_const(d, e, out, m, std::integral_constant<bool, std::is_invocable<const D&, E&>::value>()); D own(p); out.push_back((ld)own(e, p)); out.push_back(own == d); };
    std::vector<Out> got(n); run(n, [&](std::size_t i) { work(i, got[i]); }); for (std::size_t i = 0; i < n; ++i) { Out want; work(i, want); for (ld& x : want) if (x != x) x = 0; for (ld& x : got[i]) if (x != x) x = 0; REQUIRE(c, got[i] == want, name << ": thread " << i << " of " << n << " that draw from one constant distribution gets other values than alone"); }
    c.label(name); c.label(std::is_invocable<const D&, E&>::value ? "draws from a constant" : "copies"); c.nontrivial();
}
void shared_other(Ctx& c, void (*run)(std::size_t, const std::function<void(std::size_t)>&)) {
    double x = 0.25 * (double)(1 + c.s.choose(20)); std::vector<double> w(1 + c.s.choose(9)), b(w.size() + 1); for (double& y : w) y = (double)(1 + c.s.choose(9)); for (std::size_t i = 0; i < b.size(); ++i) b[i] = (double)i;
    switch (c.s.choose(25)) {
    case 0: constant(c, "uniform_int_distribution", br::uniform_int_distribution<>(0, (int)(8 * x)), run); break; case 1: constant(c, "uniform_smallint", br::uniform_smallint<>(0, (int)(8 * x)), run); break; case 2: constant(c, "uniform_real_distribution", br::uniform_real_distribution<>(0, x), run); break;
    case 3: constant(c, "normal_distribution", br::normal_distribution<>(0, x), run); break; case 4: constant(c, "exponential_distribution", br::exponential_distribution<>(x), run); break; case 5: constant(c, "gamma_distribution", br::gamma_distribution<>(x), run); break; case 6: constant(c, "bernoulli_distribution", br::bernoulli_distribution<>(x / 6), run); break;
    case 7: constant(c, "binomial_distribution", br::binomial_distribution<>((int)(40 * x), x / 6), run); break; case 8: constant(c, "poisson_distribution", br::poisson_distribution<>(x * x), run); break; case 9: constant(c, "geometric_distribution", br::geometric_distribution<>(x / 6), run); break; case 10: constant(c, "negative_binomial_distribution", br::negative_binomial_distribution<>((int)(4 * x), x / 6), run); break;
    case 11: constant(c, "cauchy_distribution", br::cauchy_distribution<>(0, x), run); break; case 12: constant(c, "lognormal_distribution", br::lognormal_distribution<>(0, x), run); break; case 13: constant(c, "student_t_distribution", br::student_t_distribution<>(x), run); break; case 14: constant(c, "fisher_f_distribution", br::fisher_f_distribution<>(x, x), run); break; case 15: constant(c, "weibull_distribution", br::weibull_distribution<>(x, 1), run); break;
    case 16: constant(c, "extreme_value_distribution", br::extreme_value_distribution<>(0, x), run); break; case 17: constant(c, "laplace_distribution", br::laplace_distribution<>(0, x), run); break; case 18: constant(c, "triangle_distribution", br::triangle_distribution<>(0, x / 2, x), run); break; case 19: constant(c, "chi_squared_distribution", br::chi_squared_distribution<>(x), run); break; case 20: constant(c, "non_central_chi_squared_distribution", br::non_central_chi_squared_distribution<>(x, 1), run); break;
    case 21: constant(c, "beta_distribution", br::beta_distribution<>(x, 1), run); break; case 22: constant(c, "discrete_distribution", br::discrete_distribution<>(w.begin(), w.end()), run); break; case 23: constant(c, "hyperexponential_distribution", br::hyperexponential_distribution<>(w, w), run); break; case 24: constant(c, "piecewise_constant_distribution", br::piecewise_constant_distribution<>(b.begin(), b.end(), w.begin()), run); break;
    default: { std::vector<double> v(w); v.push_back(1); constant(c, "piecewise_linear_distribution", br::piecewise_linear_distribution<>(b.begin(), b.end(), v.begin()), run); }
    }
}
}
