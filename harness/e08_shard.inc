// One shard of the E08 adaptors: SHARD selects the base engines.
#include "adapt.hpp"
namespace vf {
template<class B, int BI> static void go(Ctx& c, ScriptP s, u64 at, int kind, const char* base) {
    const B b(s, at); // const: a non-const lvalue would select the seed-sequence constructor
    #define NM(x) std::string n = std::string(x) + "," + base + ">"; head(c, n, s)
    #define DB(P, R) { NM("discard_block<" #P "," #R); DutT<br::discard_block_engine<B, P, R> > d((br::discard_block_engine<B, P, R>(b))); DbRef r; r.b = src<B>(s, at); r.p0 = P; r.r0 = R; r.n = 0; run(c, n, d, r); }
    #define SH(K) { NM("shuffle_order<" #K); DutT<br::shuffle_order_engine<B, K> > d((br::shuffle_order_engine<B, K>(b))); ShRef r(src<B>(s, at), K); run(c, n, d, r); }
    #define IB(W, U) { NM("independent_bits<" #W "," #U); DutT<br::independent_bits_engine<B, W, U> > d((br::independent_bits_engine<B, W, U>(b))); IbRef r(src<B>(s, at), W); run(c, n, d, r); }
    // each base gets every second bit count and table size, and one base in four the discard blocks
    #define DBI(P, R) if constexpr ((BI & 3) == 0) DB(P, R)
    #define SHI(K) if constexpr (((BI + K) & 1) == 0) SH(K)
    #define IBI(W, U) if constexpr (((BI / 2 + W + W / 8) & 1) == 0) IB(W, U)
    switch (kind) {
    case 0: DBI(1, 1) break; case 1: DBI(7, 3) break; case 2: DBI(2, 1) break; case 3: DBI(24, 23) break; case 4: DBI(12, 12) break; case 5: DBI(40, 1) break;
    case 6: SHI(1) break; case 7: SHI(2) break; case 8: SHI(3) break; case 9: SHI(10) break; case 10: SHI(97) break; case 11: SHI(64) break; case 12: SHI(255) break;
    case 13: IBI(1, u32) break; case 14: IBI(2, u32) break; case 15: IBI(3, u16) break; case 16: IBI(8, u8) break; case 17: IBI(16, u16) break; case 18: IBI(17, u32) break; case 19: IBI(24, u64) break;
    case 20: IBI(31, u32) break; case 21: IBI(32, u32) break; case 22: IBI(33, u64) break; case 23: IBI(48, u64) break; case 24: IBI(63, u64) break; case 25: IBI(64, u64) break; case 26: IBI(5, u64) break; case 27: IBI(61, u64) break;
    }
    #undef DB
    #undef SH
    #undef IB
}
#define X(T, lo, hi) if (bi == K) { typedef SEng<T, lo, hi> B; ScriptP s = gen_script(c, B::maxoff); s->limit = 4000000; go<B, (K)>(c, s, at, kind, #T "[" #lo ".." #hi "]"); return true; }
bool FN(Ctx& c, u64 bi, int kind) {
    u64 at = c.s.coin() ? 0 : c.s.choose(5);
#if SHARD == 0
#define K 0
    X(u32, 0u, 0xffffffffu)
#undef K
#define K 4
    X(u32, 1u, 6u)
#undef K
#define K 8
    X(u32, 5u, 0xc0000004u)
#undef K
#define K 12
    X(u64, 0u, 2305843009213693950ull)
#undef K
#define K 16
    X(u64, 1u, 18446744073709551556ull)
#undef K
#define K 20
    X(i32, -2147483647 - 1, 2147483647)
#undef K
#define K 24
    X(i64, -1000000, 5000000000ll)
#undef K
#define K 28
    X(u16, 0, 2)
#undef K
#define K 32
    X(i16, -300, 20)
#undef K
#endif
#if SHARD == 1
#define K 1
    X(u32, 1u, 2147483646u)
#undef K
#define K 5
    X(u32, 0u, 255u)
#undef K
#define K 9
    X(u32, 0u, 714024u)
#undef K
#define K 13
    X(u64, 0u, 0xffffffffu)
#undef K
#define K 17
    X(u64, 7u, 23u)
#undef K
#define K 21
    X(i32, -5, 7)
#undef K
#define K 25
    X(i64, -9223372036854775807ll, 5)
#undef K
#define K 29
    X(u8, 0, 255)
#undef K
#endif
#if SHARD == 2
#define K 2
    X(u32, 0u, 1u)
#undef K
#define K 6
    X(u32, 0u, 65536u)
#undef K
#define K 10
    X(u64, 0u, 0xffffffffffffffffull)
#undef K
#define K 14
    X(u64, 0u, 0x100000000ull)
#undef K
#define K 18
    X(u64, 0u, 0x7fffffffffffffffull)
#undef K
#define K 22
    X(i32, 1, 2147483562)
#undef K
#define K 26
    X(u16, 0, 65535)
#undef K
#define K 30
    X(u8, 3, 200)
#undef K
#endif
#if SHARD == 3
#define K 3
    X(u32, 0u, 2u)
#undef K
#define K 7
    X(u32, 0u, 0xfffffffeu)
#undef K
#define K 11
    X(u64, 1u, 0xffffffffffffffffull)
#undef K
#define K 15
    X(u64, 3u, 12884901890ull)
#undef K
#define K 19
    X(u64, 0u, 0x8000000000000000ull)
#undef K
#define K 23
    X(i64, (-9223372036854775807ll - 1), 9223372036854775807ll)
#undef K
#define K 27
    X(u16, 1, 40000)
#undef K
#define K 31
    X(i16, -32768, 32767)
#undef K
#endif
    return false;
}
}
