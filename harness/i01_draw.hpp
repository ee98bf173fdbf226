#ifndef VERIF_I01_DRAW_HPP
#define VERIF_I01_DRAW_HPP
#include "i01.hpp"
#include <boost/random.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/generate_canonical.hpp>
namespace vf {
namespace br = boost::random;
template<class D, class E> void many(D d, E& e, std::vector<ld>& o, std::size_t n) { for (std::size_t i = 0; i < n; ++i) o.push_back((ld)d(e)); }
template<class E> void draws(const Draw& d, E& e, std::vector<ld>& o, std::size_t n) {
    switch (d.kind) {
    case K_UINT: return many(br::uniform_int_distribution<int>((int)d.i, (int)d.j), e, o, n);
    case K_UINT_LL: return many(br::uniform_int_distribution<long long>(d.i, d.j), e, o, n);
    case K_UINT_U8: return many(br::uniform_int_distribution<unsigned char>((unsigned char)d.i, (unsigned char)d.j), e, o, n);
    case K_UINT_U64: return many(br::uniform_int_distribution<u64>(d.u, d.v), e, o, n);
    case K_SMALLINT: return many(br::uniform_smallint<int>((int)d.i, (int)d.j), e, o, n);
    case K_UREAL: return many(br::uniform_real_distribution<double>(d.a, d.b), e, o, n);
    case K_UREAL_F: return many(br::uniform_real_distribution<float>((float)d.a, (float)d.b), e, o, n);
    case K_UREAL_L: return many(br::uniform_real_distribution<long double>(d.a, d.b), e, o, n);
    case K_U01: return many(br::uniform_01<double>(), e, o, n);
    case K_CANON: for (std::size_t i = 0; i < n; ++i) o.push_back(br::generate_canonical<double, 53>(e)); return;
    case K_CANON_F: for (std::size_t i = 0; i < n; ++i) o.push_back(br::generate_canonical<float, 24>(e)); return;
    case K_BERNOULLI: return many(br::bernoulli_distribution<>(d.a), e, o, n);
    case K_NORMAL: return many(br::normal_distribution<double>(d.a, d.b), e, o, n);
    case K_NORMAL_F: return many(br::normal_distribution<float>((float)d.a, (float)d.b), e, o, n);
    case K_NORMAL_L: return many(br::normal_distribution<long double>(d.a, d.b), e, o, n);
    case K_EXP: return many(br::exponential_distribution<>(d.a), e, o, n);
    case K_GAMMA: return many(br::gamma_distribution<>(d.a, d.b), e, o, n);
    case K_BETA: return many(br::beta_distribution<>(d.a, d.b), e, o, n);
    case K_CHI2: return many(br::chi_squared_distribution<>(d.a), e, o, n);
    case K_NCCHI2: return many(br::non_central_chi_squared_distribution<>(d.a, d.b), e, o, n);
    case K_FISHER: return many(br::fisher_f_distribution<>(d.a, d.b), e, o, n);
    case K_STUDENT: return many(br::student_t_distribution<>(d.a), e, o, n);
    case K_CAUCHY: return many(br::cauchy_distribution<>(d.a, d.b), e, o, n);
    case K_LAPLACE: return many(br::laplace_distribution<>(d.a, d.b), e, o, n);
    case K_EXTREME: return many(br::extreme_value_distribution<>(d.a, d.b), e, o, n);
    case K_WEIBULL: return many(br::weibull_distribution<>(d.a, d.b), e, o, n);
    case K_TRIANGLE: return many(br::triangle_distribution<>(d.a, d.b, d.c), e, o, n);
    case K_LOGNORMAL: return many(br::lognormal_distribution<>(d.a, d.b), e, o, n);
    case K_HYPEREXP: { std::vector<double> r(d.w.rbegin(), d.w.rend()); return many(br::hyperexponential_distribution<>(d.w.begin(), d.w.end(), r.begin(), r.end()), e, o, n); }
    case K_PCONST: case K_PLINEAR: { std::vector<double> b; for (std::size_t i = 0; i < d.w.size() + (d.kind == K_PCONST); ++i) b.push_back((double)i * 1.5 - 2);
        if (d.kind == K_PCONST) return many(br::piecewise_constant_distribution<>(b.begin(), b.end(), d.w.begin()), e, o, n);
        return many(br::piecewise_linear_distribution<>(b.begin(), b.end(), d.w.begin()), e, o, n); }
    case K_BINOMIAL: return many(br::binomial_distribution<>((int)d.i, d.a), e, o, n);
    case K_GEOMETRIC: return many(br::geometric_distribution<>(d.a), e, o, n);
    case K_NEGBIN: return many(br::negative_binomial_distribution<>((int)d.i, d.a), e, o, n);
    case K_POISSON: return many(br::poisson_distribution<>(d.a), e, o, n);
    case K_DISCRETE: return many(br::discrete_distribution<>(d.w.begin(), d.w.end()), e, o, n);
    case K_SPHERE: { br::uniform_on_sphere<double> s((int)d.i); for (std::size_t i = 0; i < n; ++i) for (double x : s(e)) o.push_back(x); return; }
    case K_VARGEN: { br::variate_generator<E&, br::uniform_int_distribution<int> > g(e, br::uniform_int_distribution<int>((int)d.i, (int)d.j)); for (std::size_t i = 0; i < n; ++i) o.push_back(g()); return; }
    case K_RNG: { br::random_number_generator<E, long> g(e); for (std::size_t i = 0; i < n; ++i) o.push_back(g((long)d.i)); return; }
    default: pbt::fail("harness: kind");
    }
}
// engines as other people write them
// the range is only known at run time
template<class T> struct RtEng {
    typedef T result_type; ScriptP s; u64 pos; T lo; u64 maxoff;
    RtEng(ScriptP p, u64 at, T l, u64 m) : s(p), pos(at), lo(l), maxoff(m) {}
    T min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return lo; }
    T max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (T)((u64)lo + maxoff); }
    T operator()() { return (T)((u64)lo + s->at(pos++, maxoff)); }
};
// neither copyable nor default constructible
template<class T, T lo, T hi> struct NcEng {
    typedef T result_type; ScriptP s; u64 pos;
    NcEng(ScriptP p, u64 at) : s(p), pos(at) {}
    NcEng(const NcEng&) = delete; NcEng& operator=(const NcEng&) = delete;
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return lo; }
    static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return hi; }
    T operator()() { return (T)((u64)lo + s->at(pos++, (u64)hi - (u64)lo)); }
};
// a handle: copies share the position
template<class T, T lo, T hi> struct ShEng {
    typedef T result_type; ScriptP s; u64* pos;
    ShEng(ScriptP p, u64* at) : s(p), pos(at) {}
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return lo; }
    static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return hi; }
    T operator()() const { return (T)((u64)lo + s->at((*pos)++, (u64)hi - (u64)lo)); }
};
// the same for reals: offset k of B bits is lo + k * (hi - lo) / 2^B
template<class T, int B> struct RtReal {
    typedef T result_type; ScriptP s; u64 pos; T lo, hi;
    RtReal(ScriptP p, u64 at, T l, T h) : s(p), pos(at), lo(l), hi(h) {}
    T min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return lo; }
    T max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return hi; }
    T operator()() { return lo + std::ldexp((T)s->at(pos++, ((u64)1 << B) - 1), -B) * (hi - lo); }
};
#define VF_ST(T, lo, hi) { #T " in [" #lo ", " #hi "]", [](const Draw& d, const ScriptP& s, u64& pos, std::vector<ld>& o, std::size_t n) { SEng<T, lo, hi> e(s, pos); draws(d, e, o, n); pos = e.pos; } }
#define VF_NC(T, lo, hi) { "noncopyable " #T " in [" #lo ", " #hi "]", [](const Draw& d, const ScriptP& s, u64& pos, std::vector<ld>& o, std::size_t n) { NcEng<T, lo, hi> e(s, pos); draws(d, e, o, n); pos = e.pos; } }
#define VF_SH(T, lo, hi) { "handle to " #T " in [" #lo ", " #hi "]", [](const Draw& d, const ScriptP& s, u64& pos, std::vector<ld>& o, std::size_t n) { ShEng<T, lo, hi> e(s, &pos); draws(d, e, o, n); } }
#define VF_RT(T, lo, mo) { "run-time range " #T " from " #lo, [](const Draw& d, const ScriptP& s, u64& pos, std::vector<ld>& o, std::size_t n) { RtEng<T> e(s, pos, lo, mo); draws(d, e, o, n); pos = e.pos; } }
#define VF_RR(T, B, lo, hi) { #T " engine in [" #lo ", " #hi ")", [](const Draw& d, const ScriptP& s, u64& pos, std::vector<ld>& o, std::size_t n) { RtReal<T, B> e(s, pos, lo, hi); draws(d, e, o, n); pos = e.pos; } }
template<class B, class S> void pair_run(const Draw& d, u64 seed, u64 skip, std::vector<ld>& x, std::vector<ld>& y, std::size_t n, bool& same) {
    B b((typename B::result_type)seed); S s((typename S::result_type)seed); b.discard(skip); s.discard(skip);
    draws(d, b, x, n); draws(d, s, y, n); same = true; for (int i = 0; i < 5; ++i) if ((ld)b() != (ld)s()) same = false;
}
#define VF_PAIR(N, B, S) { N, &pair_run<B, S > }
}
#endif
