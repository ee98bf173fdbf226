// Uniform real generators over scripted engines, type-erased (D03).
#ifndef VERIF_UREAL_HPP
#define VERIF_UREAL_HPP
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "script.hpp"
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/generate_canonical.hpp>
namespace vf {
typedef long double ld;
static constexpr int CANON_BITS[] = { 1, 2, 3, 5, 8, 10, 12, 16, 24, 32, 48, 53, 64, 100 };
static const int NCANON = 14;
struct UReal {
    std::string type, engine; u64 maxoff; bool real, full; int digits; ld tiny, huge, eps; virtual ~UReal() {}
    virtual void u01(const ScriptP& s, u64& pos, int kind, ld* out, std::size_t n) const = 0;   // kinds: 0 distribution, 1 legacy over a value, 2 legacy over a reference
    virtual void range(const ScriptP& s, u64& pos, ld lo, ld hi, int kind, ld* out, std::size_t n) const = 0; // 0 object, 1 one-shot, 2 legacy class, 3 legacy one-shot
    virtual void canon(const ScriptP& s, u64& pos, int which, ld* out, std::size_t n) const = 0;
    virtual void interval(Ctx& c, ld& lo, ld& hi) const = 0;
};
template<class T, class E, int N> struct CanonAll { static T get(E& e, int which) { return which == N ? boost::random::generate_canonical<T, (std::size_t)CANON_BITS[N]>(e) : CanonAll<T, E, N - 1>::get(e, which); } };
template<class T, class E> struct CanonAll<T, E, 0> { static T get(E& e, int) { return boost::random::generate_canonical<T, (std::size_t)CANON_BITS[0]>(e); } };
template<class T> T gen_mag(Ctx& c) { // any magnitude, subnormals included
    typedef std::numeric_limits<T> L; int e; switch (c.s.choose(3)) { case 0: e = (int)c.s.choose(40) - 20; break; case 1: e = (L::max_exponent - 1) - (int)c.s.choose(3); break; case 2: e = L::min_exponent - (int)c.s.choose(L::digits); break; default: e = L::min_exponent - L::digits + 1 + (int)c.s.choose(L::max_exponent - L::min_exponent + L::digits - 2); }
    T m; switch (c.s.choose(3)) { case 0: m = 1; break; case 1: m = 2 - L::epsilon(); break; default: m = 1 + (T)c.s.u01(); }
    return std::ldexp(m, e - 1 < L::max_exponent ? e - 1 : L::max_exponent - 1);
}
template<class T> T gen_real(Ctx& c) { T v; switch (c.s.choose(5)) { case 0: v = 0; break; case 1: v = (T)(1 + c.s.choose(100)); break; case 2: v = (std::numeric_limits<T>::max)(); break; default: v = gen_mag<T>(c); } return c.s.coin() ? -v : v; }
template<class T> T step(T v, u64 n) { for (u64 i = 0; i < n; ++i) v = std::nextafter(v, std::numeric_limits<T>::infinity()); return v; }
template<class T, class E, bool Full> struct URealT : UReal {
    URealT(const char* t, const char* e) { typedef std::numeric_limits<T> L; type = t; engine = e; maxoff = E::maxoff; real = !std::numeric_limits<typename E::result_type>::is_integer; full = Full; digits = L::digits; tiny = L::denorm_min(); huge = (L::max)(); eps = L::epsilon(); }
    void u01(const ScriptP& s, u64& pos, int kind, ld* out, std::size_t n) const {
        E e(s, pos);
        if (kind == 0) { boost::random::uniform_01<T> d; for (std::size_t i = 0; i < n; ++i) out[i] = d(e); pos = e.pos; }
        else if (kind == 1) { boost::random::uniform_01<E, T> d(e); for (std::size_t i = 0; i < n; ++i) out[i] = d(); pos = d.base().pos; }
        else { boost::random::uniform_01<E&, T> d(e); for (std::size_t i = 0; i < n; ++i) out[i] = d(); pos = e.pos; }
    }
    void range(const ScriptP& s, u64& pos, ld lo, ld hi, int kind, ld* out, std::size_t n) const {
        E e(s, pos); typedef boost::random::uniform_real_distribution<T> D; typedef boost::uniform_real<T> L;
        if (kind == 0) { D d((T)lo, (T)hi); for (std::size_t i = 0; i < n; ++i) out[i] = d(e); }
        else if (kind == 1) { D d; for (std::size_t i = 0; i < n; ++i) out[i] = d(e, typename D::param_type((T)lo, (T)hi)); }
        else if (kind == 2) { L d((T)lo, (T)hi); for (std::size_t i = 0; i < n; ++i) out[i] = d(e); }
        else { L d; for (std::size_t i = 0; i < n; ++i) out[i] = d(e, typename L::param_type((T)lo, (T)hi)); }
        pos = e.pos;
    }
    void canon(const ScriptP& s, u64& pos, int which, ld* out, std::size_t n) const { canon_(s, pos, which, out, n, std::integral_constant<bool, Full>()); }
    void canon_(const ScriptP& s, u64& pos, int which, ld* out, std::size_t n, std::true_type) const { E e(s, pos); for (std::size_t i = 0; i < n; ++i) out[i] = CanonAll<T, E, NCANON - 1>::get(e, which); pos = e.pos; }
    void canon_(const ScriptP&, u64&, int, ld*, std::size_t, std::false_type) const { pbt::fail("harness: canon on an engine with fewer bits than its type"); }
    void interval(Ctx& c, ld& lo, ld& hi) const {
        T a, b; switch (c.s.choose(5)) {
        case 0: a = 0; b = 1; break;
        case 1: a = gen_real<T>(c); b = step(a, 1 + c.s.choose(20)); break;
        case 2: a = -(std::numeric_limits<T>::max)() * (T)c.s.u01(); b = (std::numeric_limits<T>::max)() * (T)c.s.u01(); break;
        case 3: a = (T)((double)c.s.irange(-1000, 1000)); b = a + (T)(1 + c.s.choose(2000)); break;
        default: a = gen_real<T>(c); b = gen_real<T>(c); }
        if (a > (std::numeric_limits<T>::max)()) a = (std::numeric_limits<T>::max)(); if (b > (std::numeric_limits<T>::max)()) b = (std::numeric_limits<T>::max)();
        if (a > b) std::swap(a, b);
        if (a == b) { if (b == (std::numeric_limits<T>::max)()) a = 0; else b = std::nextafter(b, std::numeric_limits<T>::infinity()); }
        lo = a; hi = b;
    }
};
typedef std::vector<const UReal*> UReals;
template<class T> void add_real_type(UReals& v, const char* n) {
#define UE(B, lo, hi) v.push_back(new URealT<T, SEng<B, lo, hi>, true>(n, #B "[" #lo ".." #hi "]"));
    UE(u32, 0u, 1u) UE(u32, 0u, 2u) UE(u32, 1u, 6u) UE(i32, -5, 7) UE(u64, 0u, 9u) UE(u8, 0, 255) UE(u16, 0, 65535) UE(i16, -32768, 32767) UE(u32, 3u, 65539u) UE(u32, 4294967290u, 4294967295u) UE(u32, 0u, 0xffffffffu) UE(u32, 1u, 2147483646u) UE(i32, -2147483647 - 1, 2147483647) UE(i32, -2147483647, 2147483647) UE(u64, 0u, ~0ull) UE(u64, 1u, 2305843009213693951ull) UE(u64, 9223372036854775808ull, 9223372036854775817ull) UE(i64, -5000000000ll, 1000000) UE(i64, -9223372036854775807ll - 1, 9223372036854775807ll)
#undef UE
    v.push_back(new URealT<T, REng<float, 24>, true>(n, "float")); v.push_back(new URealT<T, REng<double, 53>, true>(n, "double")); v.push_back(new URealT<T, REng<long double, 64>, true>(n, "long double"));
    v.push_back(new URealT<T, REng<float, 14>, false>(n, "14-bit float")); v.push_back(new URealT<T, REng<double, 12>, false>(n, "12-bit double"));
}
void ureal_a(UReals&), ureal_b(UReals&), ureal_c(UReals&);
}
#endif
