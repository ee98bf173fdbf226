// Histories of variate generators against a separately held engine and distribution (V01).
#ifndef VERIF_V01_HPP
#define VERIF_V01_HPP
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "script.hpp"
#include <boost/random/variate_generator.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/shuffle_order.hpp>
#include <random>
#include <list>
namespace vf {
template<class T> struct Show { static std::string s(const T& v) { return str(v); } };
template<class T> struct Show<std::vector<T> > { static std::string s(const std::vector<T>& v) { std::string r = "("; for (std::size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + str(v[i]); return r + ")"; } };
template<class T> inline bool same(const T& a, const T& b) { return a == b || (a != a && b != b); }
// how the engine is held
template<class E> struct ByVal { typedef E X; static const bool shared = false, assignable = true; static const char* n() { return "value"; } static E& give(E& e) { return e; } };
template<class E> struct ByRef { typedef E& X; static const bool shared = true, assignable = false; static const char* n() { return "reference"; } static E& give(E& e) { return e; } };
template<class E> struct ByPtr { typedef E* X; static const bool shared = true, assignable = true; static const char* n() { return "pointer"; } static E* give(E& e) { return &e; } };
template<class G> inline void assign(G& a, const G& b, std::true_type) { a = b; }
template<class G> inline void assign(G&, const G&, std::false_type) {}
// T: { typedef D; static D make(Ctx&); static const char* n(); }
template<class T, class E, template<class> class Hold> void history(Ctx& c) {
    typedef typename T::D D; typedef typename D::result_type R; typedef Hold<E> H; typedef boost::random::variate_generator<typename H::X, D> G; typedef Show<R> S;
    std::string what = std::string("variate_generator<") + T::n() + "> by " + H::n(); NOTE(c, what);
    std::vector<E> out, mout; out.reserve(3); for (int i = 0; i < 2; ++i) { E e((u32)(1 + c.s.choose(1000000000))); out.push_back(e); mout.push_back(e); }
    // the model: a wrapper is an engine (one of the outer ones, or its own) and a distribution
    struct M { int outer; E own; D d; E& e(std::vector<E>& v) { return outer >= 0 ? v[outer] : own; } };
    std::list<G> g; std::vector<G*> gp; std::vector<M> m; int draws = 0, shares = 0;
    for (u64 op = 0, N = 4 + c.s.choose(30); op < N; ++op) {
        u64 k = gp.empty() ? 0 : c.s.choose(gp.size() - 1); u64 what_op = gp.empty() ? 0 : c.s.choose(15);
        switch (what_op) {
        case 0: { int j = (int)c.s.choose(1); D d = T::make(c); NOTE(c, "new " << gp.size() << " from engine " << j); g.push_back(G(H::give(out[j]), d)); gp.push_back(&g.back()); M q = { H::shared ? j : -1, mout[j], d }; m.push_back(q); break; }
        case 1: case 2: case 3: case 4: case 5: { u64 n = 1 + c.s.choose(4); NOTE(c, "draw " << n << " from " << k); for (u64 i = 0; i < n; ++i) { R a = (*gp[k])(), b = m[k].d(m[k].e(mout)); ++draws; REQUIRE(c, same(a, b), what << ": value " << i << " is " << S::s(a) << ", the distribution over the engine returns " << S::s(b)); } break; }
        case 6: { int j = (int)c.s.choose(1); NOTE(c, "outer engine " << j << " called"); typename E::result_type a = out[j](), b = mout[j](); REQUIRE(c, a == b, what << ": engine " << j << " returns " << a << " instead of " << b); ++shares; break; }
        case 7: { NOTE(c, "engine of " << k << " called"); typename E::result_type a = gp[k]->engine()(), b = m[k].e(mout)(); REQUIRE(c, a == b, what << ": engine() returns " << a << " instead of " << b); ++shares; break; }
        case 8: { if (gp.size() > 6) break; NOTE(c, "copy of " << k); g.push_back(G(*gp[k])); gp.push_back(&g.back()); M q = m[k]; m.push_back(q); break; }
        case 9: { u64 l = c.s.choose(gp.size() - 1); if (!H::assignable) break; NOTE(c, k << " assigned from " << l); assign(*gp[k], *gp[l], std::integral_constant<bool, H::assignable>()); M q = m[l]; m[k] = q; break; }
        case 10: NOTE(c, "reset of distribution of " << k); gp[k]->distribution().reset(); m[k].d.reset(); break;
        case 11: { D d = T::make(c); NOTE(c, "parameters of " << k << " changed"); if (c.s.coin()) { gp[k]->distribution() = d; m[k].d = d; } else T::param(gp[k]->distribution(), m[k].d, d); break; }
        case 12: { u32 x = (u32)(1 + c.s.choose(1000000000)); NOTE(c, "engine of " << k << " seeded"); gp[k]->engine().seed(x); m[k].e(mout).seed(x); break; }
        case 13: { D d = T::make(c); NOTE(c, "one draw of " << k << " with parameters"); ++draws; T::one(c, what, *gp[k], m[k].d, m[k].e(mout), d); break; }
        case 14: { int j = (int)c.s.choose(1); NOTE(c, "distribution of " << k << " over outer engine " << j); R a = gp[k]->distribution()(out[j]), b = m[k].d(mout[j]); ++draws; REQUIRE(c, same(a, b), what << ": distribution() returns " << S::s(a) << " instead of " << S::s(b)); break; }
        default: {
            const G& cg = *gp[k]; NOTE(c, "queries of " << k); REQUIRE(c, &cg.engine() == &gp[k]->engine() && &cg.distribution() == &gp[k]->distribution(), what << ": the const accessors name something else");
            if (H::shared) REQUIRE(c, &cg.engine() == &out[m[k].outer], what << ": engine() is not the engine given"); else REQUIRE(c, &cg.engine() != &out[0] && &cg.engine() != &out[1], what << ": engine() is the caller's engine");
            T::bounds(c, what, cg, m[k].d); break; }
        }
        for (std::size_t i = 0; i < out.size(); ++i) REQUIRE(c, out[i] == mout[i], what << ": outer engine " << i << " is not in the state it should have");
        for (std::size_t i = 0; i < gp.size(); ++i) REQUIRE(c, gp[i]->engine() == m[i].e(mout), what << ": engine of wrapper " << i << " is not in the state it should have");
        T::all_equal(c, what, gp, m);
    }
    c.label(std::string("by ") + H::n()); if (shares) c.label("engine also called directly"); c.nontrivial(draws > 1 && gp.size() > 1);
}
// distributions with param_type, min and max
template<class DT> struct Full { typedef DT D;
    static void param(D& a, D& b, const D& d) { a.param(d.param()); b.param(d.param()); }
    template<class G, class E> static void one(Ctx& c, const std::string& what, G& g, D& d, E& e, const D& p) { typename D::param_type q = p.param(); typename D::result_type a = g(q), b = d(e, q); REQUIRE(c, same(a, b), what << ": with parameters it returns " << Show<typename D::result_type>::s(a) << " instead of " << Show<typename D::result_type>::s(b)); }
    template<class G> static void bounds(Ctx& c, const std::string& what, const G& g, const D& d) { REQUIRE(c, same((g.min)(), (d.min)()) && same((g.max)(), (d.max)()), what << ": bounds " << Show<typename D::result_type>::s((g.min)()) << ", " << Show<typename D::result_type>::s((g.max)()) << " instead of the distribution's"); }
    template<class V, class W> static void all_equal(Ctx& c, const std::string& what, const V& g, const W& m) { for (std::size_t i = 0; i < g.size(); ++i) REQUIRE(c, g[i]->distribution() == m[i].d, what << ": distribution of wrapper " << i << " is not in the state it should have"); }
};
struct Entry { const char* n; void (*f)(Ctx&); };
typedef std::vector<Entry> Entries;
void v01_a(Entries&), v01_b(Entries&), v01_c(Entries&), v01_d(Entries&);
template<class T, class E> void add_holds(Entries& v) { Entry a = { T::n(), history<T, E, ByVal> }, b = { T::n(), history<T, E, ByRef> }, d = { T::n(), history<T, E, ByPtr> }; v.push_back(a); v.push_back(b); v.push_back(d); }
}
#endif
