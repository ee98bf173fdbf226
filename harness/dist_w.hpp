#ifndef VERIF_DIST_W_HPP
#define VERIF_DIST_W_HPP
#include "dist_impl.hpp"
#include <list>
#include <iterator>
#include <boost/range/iterator_range.hpp>
namespace vf {
template<class T> std::vector<T> conv(const std::vector<ld>& a) { std::vector<T> r; for (std::size_t i = 0; i < a.size(); ++i) r.push_back((T)a[i]); return r; }
template<class T> std::vector<ld> back(const std::vector<T>& a) { return std::vector<ld>(a.begin(), a.end()); }
// a single-pass iterator over a vector
template<class T> struct OneShot {
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
    const std::vector<T>* v; std::shared_ptr<std::size_t> at; bool end;
    OneShot(const std::vector<T>& a) : v(&a), at(new std::size_t(0)), end(false) {} OneShot() : v(0), end(true) {}
    T operator*() const { return (*v)[*at]; } OneShot& operator++() { ++*at; return *this; } struct Old { T x; T operator*() const { return x; } }; Old operator++(int) { Old o = { **this }; ++*at; return o; }
    bool done() const { return end || *at >= v->size(); }
    friend bool operator==(const OneShot& a, const OneShot& b) { return a.done() == b.done(); } friend bool operator!=(const OneShot& a, const OneShot& b) { return !(a == b); }
};
// weights by position: interval k of n equal ones over [0, n]
template<class T> struct ByMid { std::vector<T> w; T operator()(double x) const { std::size_t k = (std::size_t)x; return w[k < w.size() ? k : w.size() - 1]; } };
template<class RT, class DT, bool F> struct Disc { typedef DT D; typedef typename D::input_type W; typedef W R; static const bool full = F; static const int routes = 6;
    template<class O, class X> static O* build(const P& p, int route) {
        std::vector<W> w = conv<W>(p.w); std::size_t n = w.size();
        switch (route) {
        case 1: return new O(X(w.begin(), w.end()));
        case 2: { std::list<W> l(w.begin(), w.end()); return new O(X(l)); }
        case 3: return new O(X(OneShot<W>(w), OneShot<W>()));
        case 4: { ByMid<W> f; f.w = w; if (n == 0) return new O(X(std::size_t(0), 0.0, 1.0, [](double) { return W(3); })); return new O(X(n, 0.0, (double)n, f)); }
        case 5: { if (n == 0) return new O(X(std::initializer_list<W>())); if (n == 1) return new O(X(std::initializer_list<W>({ w[0] }))); if (n == 2) return new O(X(std::initializer_list<W>({ w[0], w[1] }))); if (n == 3) return new O(X(std::initializer_list<W>({ w[0], w[1], w[2] }))); if (n == 5) return new O(X(std::initializer_list<W>({ w[0], w[1], w[2], w[3], w[4] }))); } // fallthrough
        default: return new O(X(w)); }
    }
    template<class X> static P get(const X& x) { P p; p.w = back(x.probabilities()); return p; } static P def() { P p; p.w.assign(1, 1); return p; } };
template<class RT, class DT, bool F> struct Hype { typedef DT D; typedef RT R; typedef RT W; static const bool full = F; static const int routes = 5;
    template<class O, class X> static O* build(const P& p, int route) {
        std::vector<RT> w = conv<RT>(p.w), r = conv<RT>(p.v); bool equal = true; for (std::size_t i = 0; i < w.size(); ++i) equal = equal && w[i] == w[0]; std::size_t n = w.size();
        switch (route) {
        case 1: return new O(X(w.begin(), w.end(), r.begin(), r.end()));
        case 2: if (equal) return new O(X(r.begin(), r.end())); else { std::list<RT> a(w.begin(), w.end()), b(r.begin(), r.end()); return new O(X(a, b)); }
        case 3: if (equal) return new O(X(r)); break;
        case 4: { typedef std::initializer_list<RT> L; if (n == 1 && equal) return new O(X(L({ r[0] }))); if (n == 2) { if (equal) return new O(X(L({ r[0], r[1] }))); return new O(X(L({ w[0], w[1] }), L({ r[0], r[1] }))); } if (n == 3) return new O(X(L({ w[0], w[1], w[2] }), L({ r[0], r[1], r[2] }))); break; }
        default: ; }
        return new O(X(w, r));
    }
    template<class X> static P get(const X& x) { P p; p.w = back(x.probabilities()); p.v = back(x.rates()); return p; } static P def() { P p; p.w.assign(1, 1); p.v.assign(1, 1); return p; } };
inline bool unit_spaced(const std::vector<ld>& b) { for (std::size_t i = 0; i < b.size(); ++i) if (b[i] != (ld)i) return false; return b.size() >= 2; }
template<class RT> struct AtMid { std::vector<RT> b; std::vector<ld> w; template<class T> ld operator()(T x) const { std::size_t k = 0; while (k + 1 < w.size() && !((ld)x < (ld)b[k + 1])) ++k; return w[k]; } };
template<class RT> struct AtEnd { std::vector<RT> b; std::vector<ld> w; template<class T> ld operator()(T x) const { std::size_t k = 0; while (k + 1 < w.size() && (ld)x > (ld)b[k]) ++k; return w[k]; } };
template<class RT, class DT, class WT, template<class> class Fn, bool F> struct Piece { typedef DT D; typedef RT R; typedef WT W; static const bool full = F; static const int routes = 5;
    template<class O, class X> static O* build(const P& p, int route) {
        std::vector<WT> w = conv<WT>(p.w); std::vector<RT> b = conv<RT>(p.b); std::size_t n = b.size(); Fn<RT> f; f.w = p.w; f.b = b; typedef std::initializer_list<RT> L; auto g = [&](auto x) { return (WT)f(x); };
        switch (route) {
        case 1: return new O(X(b.begin(), b.end(), w.begin()));
        case 2: { std::list<RT> l(b.begin(), b.end()); std::list<WT> m(w.begin(), w.end()); return new O(X(l, m)); }
        case 3: if (n == 0) return new O(X(L(), g)); if (n == 1) return new O(X(L({ b[0] }), g)); if (n == 2) return new O(X(L({ b[0], b[1] }), g)); if (n == 3) return new O(X(L({ b[0], b[1], b[2] }), g)); if (n == 4) return new O(X(L({ b[0], b[1], b[2], b[3] }), g)); break;
        case 4: if (unit_spaced(p.b)) return new O(X(n - 1, RT(0), RT(n - 1), g)); break;
        default: ; }
        return new O(X(b, w));
    }
    template<class X> static P get(const X& x) { P p; p.b = back(x.intervals()); p.w = back(x.densities()); return p; } };
template<class RT, class DT, class WT, bool F> struct PCon : Piece<RT, DT, WT, AtMid, F> { static P def() { P p; p.b.push_back(0); p.b.push_back(1); p.w.assign(1, 1); return p; } };
template<class RT, class DT, bool F> struct PLin : Piece<RT, DT, RT, AtEnd, F> { static P def() { P p; p.b.push_back(0); p.b.push_back(1); p.w.assign(2, 1); return p; } };
}
#endif
