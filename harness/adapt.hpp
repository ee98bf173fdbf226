// Shared by the E08 shards: the model side of the adaptors and the driver.
#ifndef VERIF_ADAPT_HPP
#define VERIF_ADAPT_HPP
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "script.hpp"
#include "model.hpp"
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <sstream>
namespace br = boost::random;
namespace vf {
typedef __int128 s128;
// one adaptor instance under test, seen as a stream of integers
struct Dut { virtual ~Dut() {} virtual s128 draw() = 0; virtual u64 pos() const = 0; virtual s128 lo() const = 0; virtual s128 hi() const = 0; virtual void discard(u64) = 0; virtual void recopy() = 0; virtual void save() = 0; };
template<class E> struct DutT : Dut {
    E e; explicit DutT(const E& x) : e(x) {}
    s128 draw() { return (s128)e(); }
    u64 pos() const { return e.base().pos; }
    s128 lo() const { return (s128)(e.min)(); } s128 hi() const { return (s128)(e.max)(); }
    void discard(u64 z) { e.discard(z); }
    void recopy() { E f(e); f(); f(); e = e; E g(e); if (!(g == e) || g != e) pbt::fail("a copy of the adaptor differs from the original"); e = g; }
    void save() { if (sizeof(typename E::result_type) == 1) return; // 8-bit values are written as characters
        std::ostringstream o; o << e; E f(e); f(); f(); std::istringstream i(o.str()); i >> f; if (!i || !(f == e)) pbt::fail("the adaptor read back from \"" + o.str() + "\" differs"); e = f; }
};
// what it is compared with: the value and the number of base values used so far
struct Ref { virtual ~Ref() {} virtual s128 next() = 0; virtual u64 used() const = 0; virtual bool bounds(s128&, s128&) const = 0; };
struct Src0 { ScriptP s; u64 maxoff, p; s128 lo; u64 off() { return s->at(p++, maxoff); } s128 operator()() { return lo + off(); } };
struct DbRef : Ref {
    Src0 b; std::size_t p0, r0, n;
    s128 next() { if (n == r0) { b.p += p0 - r0; n = 0; } ++n; return b(); }
    u64 used() const { return b.p; } bool bounds(s128& l, s128& h) const { l = b.lo; h = b.lo + (s128)b.maxoff; return true; }
};
struct ShRef : Ref {
    Src0 b; std::vector<s128> v; s128 y;
    ShRef(const Src0& b_, std::size_t k) : b(b_) { for (std::size_t i = 0; i < k; ++i) v.push_back(b()); y = b(); }
    s128 next() { u128 j = (u128)(y - b.lo) * v.size() / ((u128)b.maxoff + 1); y = v[(std::size_t)j]; v[(std::size_t)j] = b(); return y; }
    u64 used() const { return b.p; } bool bounds(s128& l, s128& h) const { l = b.lo; h = b.lo + (s128)b.maxoff; return true; }
};
struct IbRef : Ref {
    Src0 b; int w; BitsPlan q; IbRef(const Src0& b_, int w_) : b(b_), w(w_), q(bits_plan(w_, (u128)b_.maxoff + 1)) {}
    s128 next() { return (s128)bits_draw(q, [this]() { return (u128)b.off(); }); }
    u64 used() const { return b.p; } bool bounds(s128& l, s128& h) const { l = 0; h = ((s128)1 << w) - 1; return true; }
};
void run(Ctx& c, const std::string& name, Dut& d, Ref& r);
template<class B> static Src0 src(ScriptP s, u64 at) { Src0 b; b.s = s; b.maxoff = B::maxoff; b.p = at; b.lo = (s128)(B::min)(); return b; }
void head(Ctx& c, const std::string& n, const ScriptP& s);
static const int NKINDS = 28;
// every shard handles the bases with its own number
bool shard0(Ctx&, u64, int), shard1(Ctx&, u64, int), shard2(Ctx&, u64, int), shard3(Ctx&, u64, int);
}
#endif
