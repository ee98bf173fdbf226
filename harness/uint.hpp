// Uniform integer distributions over scripted engines, type-erased (D01, D02).
#ifndef VERIF_UINT_HPP
#define VERIF_UINT_HPP
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "script.hpp"
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_smallint.hpp>
namespace vf {
typedef __int128 s128;
inline std::string sh(s128 v) { return v < 0 ? "-" + pbt::str((u128)0 - (u128)v) : pbt::str((u128)v); }
struct UInt {
    std::string type, engine; s128 tmin, tmax; u64 maxoff; bool real; virtual ~UInt() {}
    // kind: 0 distribution object, 1 one-shot parameters, 2 the legacy class; n draws are made with one object
    virtual void exact(const ScriptP& s, u64& pos, s128 lo, s128 hi, int kind, s128* out, std::size_t n) const = 0;
    virtual void small(const ScriptP& s, u64& pos, s128 lo, s128 hi, int kind, s128* out, std::size_t n) const = 0;
};
template<class T, class E> struct UIntT : UInt {
    UIntT(const char* t, const char* e) { type = t; engine = e; tmin = (s128)(std::numeric_limits<T>::min)(); tmax = (s128)(std::numeric_limits<T>::max)(); maxoff = E::maxoff; real = !std::numeric_limits<typename E::result_type>::is_integer; }
    void exact(const ScriptP& s, u64& pos, s128 lo, s128 hi, int kind, s128* out, std::size_t n) const {
        E e(s, pos); typedef boost::random::uniform_int_distribution<T> D; typedef boost::uniform_int<T> L;
        if (kind == 0) { D d((T)lo, (T)hi); for (std::size_t i = 0; i < n; ++i) out[i] = (s128)d(e); }
        else if (kind == 1) { D d; for (std::size_t i = 0; i < n; ++i) out[i] = (s128)d(e, typename D::param_type((T)lo, (T)hi)); }
        else { L d((T)lo, (T)hi); for (std::size_t i = 0; i < n; ++i) out[i] = (s128)d(e); }
        pos = e.pos;
    }
    void small(const ScriptP& s, u64& pos, s128 lo, s128 hi, int kind, s128* out, std::size_t n) const {
        E e(s, pos); typedef boost::random::uniform_smallint<T> D;
        if (kind == 1) { D d; for (std::size_t i = 0; i < n; ++i) out[i] = (s128)d(e, typename D::param_type((T)lo, (T)hi)); }
        else { D d((T)lo, (T)hi); for (std::size_t i = 0; i < n; ++i) out[i] = (s128)d(e); }
        pos = e.pos;
    }
};
typedef std::vector<const UInt*> UInts;
const UInts& all_uints();
template<class T> void add_type(UInts& v, const char* n) {
#define UE(B, lo, hi) v.push_back(new UIntT<T, SEng<B, lo, hi> >(n, #B "[" #lo ".." #hi "]"));
    UE(u32, 0u, 1u) UE(u32, 0u, 2u) UE(u32, 1u, 6u) UE(i32, -5, 7) UE(u64, 0u, 9u) UE(u8, 0, 255) UE(u16, 0, 65535) UE(u32, 3u, 65539u) UE(u32, 0u, 0xffffffffu) UE(u32, 1u, 2147483646u) UE(i32, -2147483647 - 1, 2147483647) UE(u64, 0u, ~0ull) UE(u64, 1u, 2305843009213693951ull) UE(i64, -5000000000ll, 1000000)
#undef UE
    v.push_back(new UIntT<T, REng<float, 24> >(n, "float")); v.push_back(new UIntT<T, REng<double, 53> >(n, "double")); v.push_back(new UIntT<T, REng<long double, 64> >(n, "long double"));
}
void uint_a(UInts&), uint_b(UInts&), uint_c(UInts&), uint_d(UInts&);
// a range of the type: tiny, near powers of two and multiples of the engine's range, anywhere in the type
inline void gen_range(Ctx& c, const UInt& u, s128& lo, s128& hi) {
    u128 full = (u128)(u.tmax - u.tmin), R = (u128)u.maxoff + 1, w;
    switch (c.s.choose(6)) {
    case 0: w = c.s.choose(20); break;
    case 1: w = c.s.special((u64)(full > ~0ull ? ~0ull : full)); break;
    case 2: { w = R; u64 k = c.s.choose(4); for (u64 i = 0; i < k && w < ((u128)1 << 64); ++i) w *= R; w += c.s.choose(4); w = w >= 3 ? w - 3 : 0; break; }   // near powers of the engine's range
    case 3: { w = R * (1 + c.s.choose(9)) / (1 + c.s.choose(9)) + c.s.choose(4); w = w >= 3 ? w - 3 : 0; break; }
    case 4: w = full - c.s.choose(3); break;
    default: w = c.s.choose((u64)(full > ~0ull ? ~0ull : full));
    }
    if (w > full) w = full;
    u128 room = full - w;
    switch (c.s.choose(4)) { case 0: lo = u.tmin; break; case 1: lo = u.tmax - (s128)w; break; case 2: lo = 0; break; default: lo = u.tmin + (s128)c.s.choose((u64)(room > ~0ull ? ~0ull : room)); }
    if (lo + (s128)w > u.tmax) lo = u.tmax - (s128)w;
    if (lo < u.tmin) lo = u.tmin;
    hi = lo + (s128)w;
}
}
#endif
