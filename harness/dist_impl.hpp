#ifndef VERIF_DIST_IMPL_HPP
#define VERIF_DIST_IMPL_HPP
#include "dist.hpp"
namespace vf {
typedef SEng<u32, 0u, 0xffffffffu> G0; typedef SEng<u64, 0u, ~0ull> G1; typedef SEng<u16, 0, 65535> G2; typedef REng<double, 53> G3; typedef SEng<u8, 0, 255> G4; typedef SEng<u32, 0u, 1u> G5;
typedef SEng<u32, 1u, 2147483646u> G6; typedef SEng<i32, -2147483647 - 1, 2147483647> G7; typedef SEng<u32, 1u, 6u> G8; typedef SEng<i64, -9223372036854775807ll - 1, 9223372036854775807ll> G9; typedef REng<float, 24> G10; typedef SEng<u64, 1u, 2305843009213693951ull> G11;
static const int NENG = 12, NENG_SHORT = 6;
static const char* const ENG_NAMES[] = { "u32 engine", "u64 engine", "u16 engine", "double engine", "u8 engine", "1-bit engine", "[1, 2^31-2] engine", "i32 engine", "[1, 6] engine", "i64 engine", "float engine", "[1, 2^61-1] engine" };
static const u64 ENG_MAX[] = { G0::maxoff, G1::maxoff, G2::maxoff, G3::maxoff, G4::maxoff, G5::maxoff, G6::maxoff, G7::maxoff, G8::maxoff, G9::maxoff, G10::maxoff, G11::maxoff };
template<class F> void with_engine(int id, const ScriptP& s, u64& pos, F f, std::false_type) {
#define WE(N) case N: { G##N e(s, pos); f(e); pos = e.pos; break; }
    switch (id) { WE(0) WE(1) WE(2) WE(3) WE(4) WE(5) default: pbt::fail("harness: engine"); }
}
template<class F> void with_engine(int id, const ScriptP& s, u64& pos, F f, std::true_type) {
    switch (id) { WE(6) WE(7) WE(8) WE(9) WE(10) WE(11) default: with_engine(id, s, pos, f, std::false_type()); }
#undef WE
}
template<class Tr> struct ParamT : IParam {
    typedef typename Tr::D::param_type X; X x; ParamT(const X& a) : x(a) {}
    static const X& of(const IParam& p) { return static_cast<const ParamT&>(p).x; }
    IParam* clone() const { return new ParamT(x); } bool eq(const IParam& o) const { return x == of(o); } bool ne(const IParam& o) const { return x != of(o); } P get() const { return Tr::get(x); }
    void write(std::ostream& o) const { o << x; } void write(std::wostream& o) const { o << x; } void read(std::istream& i) { i >> x; } void read(std::wistream& i) { i >> x; }
};
template<class Tr> struct ObjT : IObj {
    typedef typename Tr::D D; typedef std::integral_constant<bool, Tr::full> Full; D d; ObjT(const D& a) : d(a) {}
    static const D& of(const IObj& p) { return static_cast<const ObjT&>(p).d; }
    IObj* clone() const { return new ObjT(d); } void assign(const IObj& o) { d = of(o); } bool eq(const IObj& o) const { return d == of(o); } bool ne(const IObj& o) const { return d != of(o); } P get() const { return Tr::get(d); }
    void write(std::ostream& o) const { o << d; } void write(std::wostream& o) const { o << d; } void read(std::istream& i) { i >> d; } void read(std::wistream& i) { i >> d; }
    void draw(int eng, const ScriptP& s, u64& pos, ld* out, std::size_t n) { D& x = d; with_engine(eng, s, pos, [&](auto& e) { for (std::size_t i = 0; i < n; ++i) out[i] = (ld)x(e); }, Full()); }
    void draw1(int eng, const ScriptP& s, u64& pos, const IParam& p, ld* out, std::size_t n) { D& x = d; const typename D::param_type& q = ParamT<Tr>::of(p); with_engine(eng, s, pos, [&](auto& e) { for (std::size_t i = 0; i < n; ++i) out[i] = (ld)x(e, q); }, Full()); }
    void reset() { d.reset(); } IParam* param() const { return new ParamT<Tr>(d.param()); } void param(const IParam& p) { d.param(ParamT<Tr>::of(p)); }
    ld mn() const { return (ld)(d.min)(); } ld mx() const { return (ld)(d.max)(); }
};
template<class Tr> struct DistT : IDist {
    typedef typename Tr::D D; typedef typename Tr::R R; typedef typename D::result_type V;
    DistT(const std::string& n, Kind k) {
        typedef std::numeric_limits<R> L; typedef std::numeric_limits<V> LV; name = n; kind = k; real_result = !LV::is_integer; digits = L::digits; maxexp = L::max_exponent; minexp = L::min_exponent; io_digits = std::max(3, L::max_digits10); eps = L::epsilon(); huge = (L::max)(); tiny = L::denorm_min();
        imax = (LV::max)(); imin = LV::lowest(); nengines = Tr::full ? NENG : NENG_SHORT; typedef std::numeric_limits<typename Tr::W> LW; real_weights = !LW::is_integer; wdigits = LW::digits;
    }
    IObj* make_default() const { return new ObjT<Tr>(D()); } IParam* param_default() const { return new ParamT<Tr>(typename D::param_type()); }
    int routes() const { return Tr::routes; }
    IObj* make(const P& p, int r) const { return Tr::template build<ObjT<Tr>, D>(p, r); }
    IParam* make_param(const P& p, int r) const { return Tr::template build<ParamT<Tr>, typename D::param_type>(p, r); }
    IObj* make_from(const IParam& p) const { return new ObjT<Tr>(D(ParamT<Tr>::of(p))); }
    P def() const { return Tr::def(); }
    u64 maxoff(int e) const { return ENG_MAX[e]; } std::string engine(int e) const { return ENG_NAMES[e]; }
};
// distributions whose parameters are one, two or three scalars
#define SCALAR1(ID, CLASS, A, g1, d1) template<class RT, class DT, bool F> struct ID { typedef DT D; typedef RT R; typedef RT W; static const bool full = F; static const int routes = 1; \
    template<class O, class X> static O* build(const P& p, int route) { if (route == 100) return new O(X()); return new O(X((A)p.v[0])); } template<class X> static P get(const X& x) { return P((ld)x.g1()); } static P def() { return P(d1); } };
#define SCALAR2(ID, CLASS, A, B, g1, g2, d1, d2) template<class RT, class DT, bool F> struct ID { typedef DT D; typedef RT R; typedef RT W; static const bool full = F; static const int routes = 1; \
    template<class O, class X> static O* build(const P& p, int route) { if (route == 100) return new O(X()); if (route == 101) return new O(X((A)p.v[0])); return new O(X((A)p.v[0], (B)p.v[1])); } template<class X> static P get(const X& x) { return P((ld)x.g1(), (ld)x.g2()); } static P def() { return P(d1, d2); } };
template<class T> struct Nm; template<> struct Nm<float> { static const char* n() { return "float"; } }; template<> struct Nm<double> { static const char* n() { return "double"; } }; template<> struct Nm<long double> { static const char* n() { return "long double"; } };
template<> struct Nm<int> { static const char* n() { return "int"; } }; template<> struct Nm<short> { static const char* n() { return "short"; } }; template<> struct Nm<long long> { static const char* n() { return "long long"; } }; template<> struct Nm<unsigned> { static const char* n() { return "unsigned"; } };
template<> struct Nm<unsigned long long> { static const char* n() { return "unsigned long long"; } }; template<> struct Nm<unsigned char> { static const char* n() { return "unsigned char"; } }; template<> struct Nm<unsigned short> { static const char* n() { return "unsigned short"; } }; template<> struct Nm<std::size_t> { static const char* n() { return "size_t"; } }; template<> struct Nm<signed char> { static const char* n() { return "signed char"; } };
// one distribution in three floating types; double gets all engines
template<template<class, class, bool> class Tr, template<class> class C> void add3(Dists& v, const char* n, Kind k) {
    v.push_back(new DistT<Tr<double, C<double>, true> >(std::string(n) + "<double>", k)); v.push_back(new DistT<Tr<float, C<float>, false> >(std::string(n) + "<float>", k)); v.push_back(new DistT<Tr<long double, C<long double>, false> >(std::string(n) + "<long double>", k));
}
template<template<class, class, bool> class Tr, template<class, class> class C> void add_int(Dists& v, const char* n, Kind k) {
#define AI(I, T, F) v.push_back(new DistT<Tr<T, C<I, T>, F> >(std::string(n) + "<" + Nm<I>::n() + ", " + Nm<T>::n() + ">", k));
    AI(int, double, true) AI(long long, double, false) AI(short, float, false) AI(int, float, false) AI(int, long double, false) AI(long long, long double, false)
#undef AI
}
}
#endif
