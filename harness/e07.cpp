// E07: seed_seq against the standard's algorithm.
#include "pbt.hpp"
#include <boost/random/seed_seq.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <deque>
#include <list>
#include <memory>
#include <random>
const char* pbt_rule = "a case counts as non-trivial when at least one seed word and at least two output words were involved, or the output was empty or a single word; distinctness is over words, construction route, output length, element type and iterator kind";
namespace vf {
using pbt::u64; using pbt::i64; using pbt::Ctx; typedef std::uint32_t u32;
// [rand.util.seedseq] written out over plain 32-bit words
static std::vector<u32> standard(const std::vector<u32>& v, std::size_t n) {
    std::vector<u32> b(n, 0x8b8b8b8bu); if (!n) return b;
    auto T = [](u32 x) { return x ^ (x >> 27); };
    u64 s = v.size(), t = n >= 623 ? 11 : n >= 68 ? 7 : n >= 39 ? 5 : n >= 7 ? 3 : (n - 1) / 2, p = (n - t) / 2, q = p + t, m = s + 1 > n ? s + 1 : n;
    for (u64 k = 0; k < m; ++k) {
        u32 r1 = 1664525u * T(b[k % n] ^ b[(k + p) % n] ^ b[(k + n - 1) % n]), r2 = r1 + (u32)(k == 0 ? s : k <= s ? k % n + v[k - 1] : k % n);
        b[(k + p) % n] += r1; b[(k + q) % n] += r2; b[k % n] = r2;
    }
    for (u64 k = m; k < m + n; ++k) {
        u32 r3 = 1566083941u * T(b[k % n] + b[(k + p) % n] + b[(k + n - 1) % n]), r4 = r3 - (u32)(k % n);
        b[(k + p) % n] ^= r3; b[(k + q) % n] ^= r4; b[k % n] = r4;
    }
    return b;
}
typedef boost::random::seed_seq Q; typedef std::shared_ptr<Q> QP;
template<class T> static QP build(Ctx& c, const std::vector<u64>& raw, int route, std::string& how) {
    std::vector<T> w(raw.begin(), raw.end());
    switch (route) {
    case 0: how = "pointers"; { std::unique_ptr<T[]> h(new T[w.size()]); std::copy(w.begin(), w.end(), h.get()); const T* f = h.get(); return QP(new Q(f, f + w.size())); }
    case 1: how = "list iterators"; { std::list<T> l(w.begin(), w.end()); return QP(new Q(l.begin(), l.end())); }
    case 2: how = "range"; return QP(new Q(w));
    case 3: how = "deque range"; { std::deque<T> d(w.begin(), w.end()); return QP(new Q(d)); }
    case 4: how = "copy"; { Q q(w.begin(), w.end()); Q r(q); Q z; z = r; return QP(new Q(z)); }
    default: how = "initializer list";
        switch (w.size()) {
        case 0: return QP(new Q(std::initializer_list<T>()));
        case 1: { std::initializer_list<T> il = { w[0] }; return QP(new Q(il)); }
        case 2: { std::initializer_list<T> il = { w[0], w[1] }; return QP(new Q(il)); }
        case 3: { std::initializer_list<T> il = { w[0], w[1], w[2] }; return QP(new Q(il)); }
        case 5: return QP(new Q({ w[0], w[1], w[2], w[3], w[4] }));
        default: how = "pointers"; return QP(new Q(w.data(), w.data() + w.size()));
        }
    }
    (void)c;
}
template<class Cont, class V> static void check_out(Ctx& c, const Q& q, const std::vector<u32>& want, const char* kind, std::size_t lead, std::size_t tail) {
    std::size_t n = want.size(); const V guard = (V)0xA5A5A5A5C3C3C3C3ull;
    Cont o(lead + n + tail, guard);
    q.generate(o.begin() + lead, o.begin() + lead + n);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(c, o[lead + i] == (V)want[i], kind << ": word " << i << " of " << n << " is " << o[lead + i] << ", the standard's algorithm gives " << want[i]);
    for (std::size_t i = 0; i < lead; ++i) REQUIRE(c, o[i] == guard, kind << ": wrote before the range");
    for (std::size_t i = 0; i < tail; ++i) REQUIRE(c, o[lead + n + i] == guard, kind << ": wrote after the range");
}
static std::size_t out_len(Ctx& c) {
    static const std::size_t edge[] = { 0, 1, 2, 3, 6, 7, 8, 38, 39, 40, 67, 68, 69, 622, 623, 624 };
    switch (c.s.choose(3)) { case 0: return c.s.pick(edge); case 1: return c.s.choose(12); case 2: return c.s.choose(90); default: return c.s.choose(1300); }
}
static void words(Ctx& c) {
    std::size_t n = out_len(c), s;
    switch (c.s.choose(4)) { case 0: s = c.s.choose(5); break; case 1: s = n + c.s.choose(2); if (s) --s; break; case 2: s = c.s.choose(3 * n + 2); break; case 3: s = c.s.choose(60); break; default: s = c.s.choose(900); }
    std::vector<u64> raw(s); u64 style = c.s.choose(2); pbt::Prng pr(c.s.choose(~0ull));
    for (u64& x : raw) x = style == 0 ? pr.next() : style == 1 ? (s < 40 ? c.s.special() : pr.next() & 1 ? ~0ull : 0) : pr.next() >> (pr.next() % 64);
    int ty = (int)c.s.choose(5), route = (int)c.s.choose(5); if (route == 5 && s > 5) route = 0;
    std::string how; QP q; std::vector<u32> red(s);
    for (std::size_t i = 0; i < s; ++i) red[i] = ty == 0 ? (u32)raw[i] : ty == 1 ? (u32)raw[i] : ty == 2 ? (u32)(std::int32_t)(u32)raw[i] : ty == 3 ? (u32)(i64)raw[i] : ty == 4 ? (u32)(std::uint16_t)raw[i] : (u32)(std::int8_t)raw[i];
    switch (ty) {
    case 0: q = build<u32>(c, raw, route, how); break; case 1: q = build<u64>(c, raw, route, how); break; case 2: q = build<std::int32_t>(c, raw, route, how); break;
    case 3: q = build<i64>(c, raw, route, how); break; case 4: q = build<std::uint16_t>(c, raw, route, how); break; default: q = build<std::int8_t>(c, raw, route, how); }
    static const char* tn[] = { "uint32", "uint64", "int32", "int64", "uint16", "int8" };
    NOTE(c, s << " seed words of type " << tn[ty] << " by " << how << ", " << n << " outputs");
    REQUIRE(c, q->size() == s, "size() is " << q->size() << " after construction from " << s << " words by " << how);
    std::vector<u32> par; q->param(std::back_inserter(par));
    REQUIRE(c, par == red, "param() does not give the " << s << " " << tn[ty] << " words reduced to 32 bits");
    { std::vector<u64> p64(s + 2, 7); q->param(p64.begin() + 1); for (std::size_t i = 0; i < s; ++i) REQUIRE(c, p64[i + 1] == red[i], "param() into 64-bit elements: element " << i << " is " << p64[i + 1] << " instead of " << red[i]); REQUIRE(c, p64[0] == 7 && p64[s + 1] == 7, "param() wrote outside its range"); }
    std::vector<u32> want = standard(red, n);
    { std::seed_seq z(red.begin(), red.end()); std::vector<u32> w(n); z.generate(w.begin(), w.end()); if (w != want) pbt::fail("harness: model differs from libstdc++"); }
    // exact-size heap block: the sanitizer sees any access outside it
    { std::unique_ptr<u32[]> h(new u32[n]); q->generate(h.get(), h.get() + n); for (std::size_t i = 0; i < n; ++i) REQUIRE(c, h[i] == want[i], "uint32 array: word " << i << " of " << n << " is " << h[i] << ", the standard's algorithm gives " << want[i]); }
    std::size_t l = c.s.choose(3), t = c.s.choose(3);
    switch (c.s.choose(4)) {
    case 0: check_out<std::vector<u32>, u32>(c, *q, want, "vector<uint32>", l, t); break;
    case 1: check_out<std::vector<u64>, u64>(c, *q, want, "vector<uint64>", l, t); break;
    case 2: check_out<std::deque<u32>, u32>(c, *q, want, "deque<uint32>", l, t); break;
    case 3: check_out<std::deque<u64>, u64>(c, *q, want, "deque<uint64>", l, t); break;
    default: check_out<std::vector<unsigned long long>, unsigned long long>(c, *q, want, "vector<unsigned long long>", l, t); }
    // rebuilt from its parameters, used again, and used for another length in between
    Q r(par.begin(), par.end()); std::vector<u32> a(n), b(n), x(c.s.choose(50)); r.generate(a.begin(), a.end()); r.generate(x.begin(), x.end()); r.generate(b.begin(), b.end());
    REQUIRE(c, a == want && b == want, "a sequence rebuilt from param() generates different words");
    REQUIRE(c, x == standard(red, x.size()), "second generate() of " << x.size() << " words differs from the standard's algorithm");
    c.label(std::string("in ") + tn[ty]); c.label(n == 0 ? "n=0" : n < 7 ? "n<7" : n < 39 ? "n<39" : n < 68 ? "n<68" : n < 623 ? "n<623" : "n>=623");
    c.nontrivial(n < 2 || s > 0);
}
// every small pair of lengths
static void grid(Ctx& c) {
    u64 k = c.enumerate(73 * 75); std::size_t n = k % 75, s = k / 75; u32 f = (u32)c.s.special(0xffffffffu), d = (u32)c.s.special(0xffffffffu);
    std::vector<u32> v; for (std::size_t i = 0; i < s; ++i) v.push_back(f + (u32)i * d);
    NOTE(c, s << " words from " << f << " by " << d << ", " << n << " outputs");
    Q q(v.begin(), v.end()); std::vector<u32> want = standard(v, n);
    check_out<std::vector<u32>, u32>(c, q, want, "vector<uint32>", 1, 1); check_out<std::vector<u64>, u64>(c, q, want, "vector<uint64>", 1, 1);
    if (s == 0) { Q e; std::vector<u32> z(n); e.generate(z.begin(), z.end()); REQUIRE(c, z == want && e.size() == 0, "default-constructed sequence"); }
    c.nontrivial(n < 2 || s > 0);
}
}
namespace pbt { void register_checks() {
    add("grid", 16425, 120000, vf::grid);
    add("words", 220000, 900000, vf::words);
} }
