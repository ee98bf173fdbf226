// L01: the legacy engine templates next to their modern counterparts.
#ifndef VERIF_L01_HPP
#define VERIF_L01_HPP
#include "pbt.hpp"
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include <sstream>
#include <vector>
namespace vf {
using pbt::u64; using pbt::i64; using pbt::Ctx; using pbt::str; typedef std::uint32_t u32; typedef long double ld;
struct Pair { const char* name; std::string (*run)(Ctx&); };
void l01_a(std::vector<Pair>&); void l01_b(std::vector<Pair>&);
enum { VALUE = 1, SEQ = 2, RANGE = 4, GEN = 8, BASE = 16, TEXT = 32, ONE = 64 };   // routes; ONE: no default constructor of its own
// a seed sequence and a generator of given words
struct Words { std::vector<u32> w; std::size_t i; explicit Words(const std::vector<u32>& v) : w(v), i(0) {} u32 next() { return w.empty() ? 0 : w[i++ % w.size()]; } };
struct WSeq { typedef u32 result_type; Words q; explicit WSeq(const std::vector<u32>& v) : q(v) {} template<class It> void generate(It f, It l) { for (; f != l; ++f) *f = q.next(); } };
struct WGen { typedef u32 result_type; Words q; explicit WGen(const std::vector<u32>& v) : q(v) {} u32 operator()() { return q.next(); } static u32 min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static u32 max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0xffffffffu; } };
inline std::vector<u32> gen_words(Ctx& c, std::size_t most) { std::vector<u32> w(1 + c.s.choose(most)); for (u32& x : w) x = (u32)c.s.special(0xffffffffu); return w; }
template<class E> std::string text(const E& e) { std::ostringstream os; os << e; return os.str(); }
template<int R> using Has = std::integral_constant<bool, R != 0>;
template<class O, class N, int R> struct Legacy {
    static bool same(const O& o, const N& n) { return static_cast<const N&>(o) == n; }
    // seeding both by one route
    template<class E, class X> static void seed_v(E& e, X v, std::true_type) { e.seed(v); }
    template<class E, class X> static void seed_v(E&, X, std::false_type) {}
    template<class E> static void seed_s(E& e, const std::vector<u32>& w, std::true_type) { WSeq q(w); e.seed(q); }
    template<class E> static void seed_s(E&, const std::vector<u32>&, std::false_type) {}
    template<class E> static void seed_g(E& e, const std::vector<u32>& w, std::true_type) { WGen g(w); e.seed(g); }
    template<class E> static void seed_g(E&, const std::vector<u32>&, std::false_type) {}
    static O make_v(u32 v, std::true_type) { return O((typename N::result_type)v); } static O make_v(u32, std::false_type) { return O(); }
    static O make_s(const std::vector<u32>& w, std::true_type) { WSeq q(w); return O(q); } static O make_s(const std::vector<u32>&, std::false_type) { return O(); }
    static O make_g(const std::vector<u32>& w, std::true_type) { WGen g(w); return O(g); } static O make_g(const std::vector<u32>&, std::false_type) { return O(); }
    static std::string make(Ctx& c, O& o, N& n, std::string& how) {
        std::vector<int> r; r.push_back(0); for (int b = 1; b <= GEN; b *= 2) if (R & b) r.push_back(b);
        int k = r[c.s.choose(r.size() - 1)]; u32 v = (u32)c.s.special(0xffffffffu); std::vector<u32> w = gen_words(c, 6); bool again = c.s.coin();
        switch (k) {
        case 0: how = "default"; if (again) { o.seed(); n.seed(); } else { o = O(); n = N(); } break;
        case VALUE: how = "value " + str(v); n.seed((typename N::result_type)v); if (again) seed_v(o, (typename N::result_type)v, Has<R & VALUE>()); else o = make_v(v, Has<R & VALUE>()); break;
        case SEQ: how = "sequence"; seed_s(n, w, Has<R & SEQ>()); if (again) seed_s(o, w, Has<R & SEQ>()); else o = make_s(w, Has<R & SEQ>()); break;
        case GEN: { how = "generator"; WSeq q(w); n.seed(q); if (again) seed_g(o, w, Has<R & GEN>()); else o = make_g(w, Has<R & GEN>()); break; }
        default: { how = "range"; std::vector<u32> l(6000); Words q(w); for (u32& x : l) x = q.next() + (u32)(&x - &l[0]); const u32 *f = l.data(), *g = f, *e = f + l.size(); n.seed(f, e);
            if (again) o.seed(g, e); else o = O(g, e); if (f != g) return "seeding from a range used " + str(g - l.data()) + " words, not " + str(f - l.data()); break; }
        }
        return "";
    }
    static std::string run(Ctx& c) {
        O o; N n; std::string how, e; if (!((o.min)() == (n.min)() && (o.max)() == (n.max)())) return "other bounds"; if (!same(o, n)) return "default constructed: not equal";
        for (std::size_t step = 0, k = 1 + c.s.choose(10); step < k; ++step) {
            std::string what;
            switch (c.s.choose(7)) {
            case 0: e = make(c, o, n, how); if (!e.empty()) return how + ": " + e; what = "seeding by " + how; break;
            case 1: case 2: { u64 m = c.s.choose(30); for (u64 i = 0; i < m; ++i) { ld a = (ld)o(), b = (ld)n(); if (a != b) { std::ostringstream os; os.precision(21); os << "after " << how << ": value " << a << ", not " << b; return os.str(); } } what = "drawing"; break; }
            case 3: { u64 m = c.s.choose(3000); o.discard(m); n.discard(m); what = "discarding"; break; }
            case 4: { O p(o); if (!same(p, n)) return "a copy of an object that is not const differs"; if (!same(o, n)) return "copying changes the source, which is not const"; if (c.s.coin()) { o(); o = p; } what = "copying"; break; }
            case 5: { const O& k2 = o; O p(k2); if (!same(p, n)) return "a copy of a const object differs"; O q; q.discard(c.s.choose(20)); q = k2; if (!(q == o) || q != o) return "assigned but not equal"; p(); p = q; o = std::move(p); what = "assigning"; break; }
            case 6: { if (!(R & TEXT)) break; if (text(o) != text(n)) return "another text: " + text(o).substr(0, 80) + ", not " + text(n).substr(0, 80); O p; p.discard(3); std::istringstream is(text(n)); is >> p; if (!is) return "does not read the modern text"; if (!same(p, n)) return "reading the modern text gives another state"; o = p; what = "reading"; break; }
            default: { std::vector<u32> a(1 + c.s.choose(9)), b(a.size()); o.generate(a.begin(), a.end()); n.generate(b.begin(), b.end()); if (a != b) return "generate gives other words"; what = "generating"; break; }
            }
            if (!same(o, n)) return "after " + what + " (seeded by " + how + ") the states differ";
        }
        return "";
    }
};
// adaptors: also from a base engine, const or not
template<class O, class N, class B> std::string from_base(Ctx& c) {
    B b; b.seed((typename B::result_type)c.s.special(0xffffffffu)); b.discard(c.s.choose(100)); const B k(b); N n(k);
    if (c.s.coin()) { O o(k); if (!(static_cast<const N&>(o) == n)) return "constructed from a const base engine: not equal"; return ""; }
    O o(b); if (!(b == k)) return "constructing from a base engine changes that engine"; if (!(static_cast<const N&>(o) == n)) return "constructed from a base engine that is not const: not equal"; return "";
}
template<class O, class N, class A, class B> std::string from_bases(Ctx& c) {
    A a; B b; a.seed((typename A::result_type)c.s.special(0xffffffffu)); b.seed((typename B::result_type)c.s.special(0xffffffffu)); a.discard(c.s.choose(100)); const A ka(a); const B kb(b); N n(ka, kb);
    switch (c.s.choose(3)) {
    case 0: { O o(ka, kb); N m(ka, kb); return static_cast<const N&>(o) == n && m == n ? "" : "constructed from const base engines: not equal"; }
    case 1: { O o(a, b); N m(a, b); return static_cast<const N&>(o) == n && m == n && a == ka && b == kb ? "" : "constructed from base engines: not equal"; }
    case 2: { O o(a, kb); N m(a, kb); return static_cast<const N&>(o) == n && m == n && a == ka ? "" : "constructed from a base engine and a const one: not equal"; }
    default: { O o(ka, b); N m(ka, b); return static_cast<const N&>(o) == n && m == n && b == kb ? "" : "constructed from a const base engine and another: not equal"; }
    }
}
}
#endif
