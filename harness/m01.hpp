// M01: the library over Boost.Multiprecision numbers.
#ifndef VERIF_M01_HPP
#define VERIF_M01_HPP
#include "dist_w.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
namespace vf {
namespace mp = boost::multiprecision;
// software floats with the precision and the exponents of double and long double, and one of a hundred digits (fewer bits than double would not convert from the library's double constants)
typedef mp::number<mp::cpp_bin_float<53, mp::digit_base_2, void, std::int16_t, -1022, 1023>, mp::et_off> SD;
typedef mp::number<mp::cpp_bin_float<64, mp::digit_base_2, void, std::int16_t, -16382, 16383>, mp::et_on> SL;
typedef mp::number<mp::cpp_bin_float<100>, mp::et_on> B100;
template<> struct Nm<SD> { static const char* n() { return "53-bit software float"; } }; template<> struct Nm<SL> { static const char* n() { return "64-bit software float"; } }; template<> struct Nm<B100> { static const char* n() { return "100-digit float"; } };
template<class F> void with4(int id, const ScriptP& s, u64& pos, F f) {
    switch (id) { case 0: { G0 e(s, pos); f(e); pos = e.pos; break; } case 1: { G1 e(s, pos); f(e); pos = e.pos; break; } case 2: { G2 e(s, pos); f(e); pos = e.pos; break; } case 3: { G3 e(s, pos); f(e); pos = e.pos; break; } default: pbt::fail("harness: engine"); }
}
// like ParamT and ObjT without wide streams, which these numbers do not have
template<class Tr> struct MParam : IParam {
    typedef typename Tr::D::param_type X; X x; MParam(const X& a) : x(a) {}
    static const X& of(const IParam& p) { return static_cast<const MParam&>(p).x; }
    IParam* clone() const { return new MParam(x); } bool eq(const IParam& o) const { return x == of(o); } bool ne(const IParam& o) const { return x != of(o); } P get() const { return Tr::get(x); }
    void write(std::ostream& o) const { o << x; } void write(std::wostream&) const { pbt::fail("harness: wide"); } void read(std::istream& i) { i >> x; } void read(std::wistream&) { pbt::fail("harness: wide"); }
};
// converting 53-bit software floats near the least one to long double gives 0 in Boost.Multiprecision 1.83
inline ld to_ld(const SD& v) { return (double)v; }
template<class V> ld to_ld(const V& v) { return (ld)v; }
// the greatest value of long double at or below a number of more digits: it keeps [a, b) half open
template<class V> ld down(const V& v) { ld x = to_ld(v); if (std::numeric_limits<V>::digits > 64 && std::isfinite(x) && V(x) > v) x = std::nextafter(x, -std::numeric_limits<ld>::infinity()); return x; }
template<class Tr> struct MObj : IObj {
    typedef typename Tr::D D; D d; MObj(const D& a) : d(a) {}
    static const D& of(const IObj& p) { return static_cast<const MObj&>(p).d; }
    IObj* clone() const { return new MObj(d); } void assign(const IObj& o) { d = of(o); } bool eq(const IObj& o) const { return d == of(o); } bool ne(const IObj& o) const { return d != of(o); } P get() const { return Tr::get(d); }
    void write(std::ostream& o) const { o << d; } void write(std::wostream&) const { pbt::fail("harness: wide"); } void read(std::istream& i) { i >> d; } void read(std::wistream&) { pbt::fail("harness: wide"); }
    void draw(int eng, const ScriptP& s, u64& pos, ld* out, std::size_t n) { D& x = d; with4(eng, s, pos, [&](auto& e) { for (std::size_t i = 0; i < n; ++i) out[i] = down(typename D::result_type(x(e))); }); }
    void draw1(int eng, const ScriptP& s, u64& pos, const IParam& p, ld* out, std::size_t n) { D& x = d; const typename D::param_type& q = MParam<Tr>::of(p); with4(eng, s, pos, [&](auto& e) { for (std::size_t i = 0; i < n; ++i) out[i] = down(typename D::result_type(x(e, q))); }); }
    void reset() { d.reset(); } IParam* param() const { return new MParam<Tr>(d.param()); } void param(const IParam& p) { d.param(MParam<Tr>::of(p)); }
    ld mn() const { return (ld)(d.min)(); } ld mx() const { return (ld)(d.max)(); }
};
template<class Tr> struct MDist : IDist {
    typedef typename Tr::D D; typedef typename Tr::R R; typedef typename D::result_type V;
    template<class N> static ld mach(N n, ld d) { ld x = (ld)n; return std::isfinite(x) && x != 0 ? x : d; }
    MDist(const std::string& n, Kind k) {
        typedef std::numeric_limits<R> L; typedef std::numeric_limits<V> LV; typedef std::numeric_limits<ld> LL; name = n; kind = k; real_result = !LV::is_integer; digits = std::min(64, (int)L::digits); maxexp = L::max_exponent > LL::max_exponent ? LL::max_exponent : (int)L::max_exponent; minexp = L::min_exponent < LL::min_exponent ? LL::min_exponent : (int)L::min_exponent;
        io_digits = std::max(3, (int)L::max_digits10); eps = std::max((ld)L::epsilon(), LL::epsilon()); huge = mach((L::max)(), (LL::max)()); tiny = mach((L::min)(), (LL::min)());
        imax = mach((LV::max)(), (LL::max)()); imin = LV::is_integer ? (ld)LV::lowest() : -imax; nengines = 4; typedef std::numeric_limits<typename Tr::W> LW; real_weights = !LW::is_integer; wdigits = std::min(64, (int)LW::digits);
    }
    IObj* make_default() const { return new MObj<Tr>(D()); } IParam* param_default() const { return new MParam<Tr>(typename D::param_type()); }
    int routes() const { return Tr::routes; }
    IObj* make(const P& p, int r) const { return Tr::template build<MObj<Tr>, D>(p, r); }
    IParam* make_param(const P& p, int r) const { return Tr::template build<MParam<Tr>, typename D::param_type>(p, r); }
    IObj* make_from(const IParam& p) const { return new MObj<Tr>(D(MParam<Tr>::of(p))); }
    P def() const { return Tr::def(); }
    u64 maxoff(int e) const { return ENG_MAX[e]; } std::string engine(int e) const { return ENG_NAMES[e]; }
};
// the same distribution over a built-in type and over a software float; exact when only correctly rounded operations are involved
struct Same { const IDist* hard; const IDist* soft; bool exact; bool big; };
typedef std::vector<Same> Sames;
template<template<class, class, bool> class Tr, template<class> class C, class B, class S> void m1(Sames& v, const char* n, Kind k, bool exact, bool big = false) {
    Same s; s.hard = new DistT<Tr<B, C<B>, false> >(std::string(n) + "<" + Nm<B>::n() + ">", k); s.soft = new MDist<Tr<S, C<S>, false> >(std::string(n) + "<" + Nm<S>::n() + ">", k); s.exact = exact; s.big = big; v.push_back(s);
}
template<template<class, class, bool> class Tr, template<class> class C> void m3(Sames& v, const char* n, Kind k, bool exact) { m1<Tr, C, double, SD>(v, n, k, exact); m1<Tr, C, ld, SL>(v, n, k, exact); m1<Tr, C, ld, B100>(v, n, k, false, true); }
void m01_a(Sames&), m01_b(Sames&), m01_c(Sames&), m01_d(Sames&), m01_e(Sames&);
}
#endif
