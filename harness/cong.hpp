// Type-erased congruential engines with many parameter sets (E10).
#ifndef VERIF_CONG_HPP
#define VERIF_CONG_HPP
#include "pbt.hpp"
#include "model.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <memory>
#include <type_traits>
namespace vf {
using pbt::u64; using pbt::i64; using pbt::u128; using pbt::Ctx; using pbt::str;
typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::int32_t i32; typedef std::int16_t i16;
struct WordSeq { std::vector<u32> w; typedef u32 result_type; template<class It> void generate(It f, It l) { std::size_t i = 0; for (; f != l; ++f) *f = w[i++ % w.size()]; } };
struct Cong {
    bool icg; u64 a, c; u128 m; int bits; bool sgn; std::string name; virtual ~Cong() {}
    virtual void seed(u64 v) = 0;                 // low bits of v as the engine's integer type
    virtual void construct(u64 v) = 0;
    virtual void seed_seq(WordSeq& s) = 0;
    virtual u64 seed_range(const std::vector<u32>& w) = 0; // words consumed
    virtual u64 next() = 0; virtual void discard(u64) = 0; virtual u64 lo() const = 0; virtual u64 hi() const = 0;
};
template<class T, class E, bool Icg> struct CongT : Cong {
    E e;
    CongT(u64 a_, u64 c_, u128 m_, const std::string& n) { icg = Icg; a = a_; c = c_; m = m_; bits = std::numeric_limits<T>::digits; sgn = std::is_signed<T>::value; name = n; }
    void seed(u64 v) { e.seed((T)v); } void construct(u64 v) { e = E((T)v); }
    void seed_seq(WordSeq& s) { e.seed(s); }
    u64 seed_range(const std::vector<u32>& w) { std::vector<u32>::const_iterator f = w.begin(); e.seed(f, w.end()); return f - w.begin(); }
    u64 next() { T v = e(); if (v < 0) pbt::fail(name + ": returned a negative value"); return (u64)v; }
    void discard(u64 z) { e.discard(z); } u64 lo() const { return (u64)(e.min)(); } u64 hi() const { return (u64)(e.max)(); }
};
typedef std::unique_ptr<Cong> CongP;
CongP cong0(u64 i, bool icg), cong1(u64 i, bool icg), cong2(u64 i, bool icg), cong3(u64 i, bool icg);
}
#endif
