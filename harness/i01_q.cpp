// standard distributions, algorithms and adaptors over the library's engines; the library's adaptors over standard engines
#include "i01.hpp"
#include <boost/random.hpp>
#include <boost/random/seed_seq.hpp>
#include <algorithm>
#include <numeric>
#include <random>
#include <sstream>
namespace br = boost::random;
namespace vf {
namespace {
// ---- standard code over the library's engines
template<class E> void use(int kind, E& e, std::vector<ld>& o, u64 x, u64 y, std::size_t n) {
    double a = 0.25 + (double)(x % 1000) / 16, b = 0.5 + (double)(y % 1000) / 16; int lo = (int)(x % 5000) - 2500;
#define MANY(...) { __VA_ARGS__; for (std::size_t i = 0; i < n; ++i) o.push_back((ld)d(e)); return; }
    switch (kind) {
    case 0: MANY(std::uniform_int_distribution<int> d(lo, lo + (int)(y % 100000)))
    case 1: MANY(std::uniform_int_distribution<unsigned long long> d(std::min(x, y), std::max(x, y)))
    case 2: MANY(std::uniform_real_distribution<double> d(-a, b))
    case 3: MANY(std::uniform_real_distribution<float> d(-(float)a, (float)b))
    case 4: MANY(std::normal_distribution<double> d(a, b))
    case 5: MANY(std::gamma_distribution<double> d(a, b))
    case 6: MANY(std::poisson_distribution<int> d(a * 3))
    case 7: MANY(std::binomial_distribution<int> d((int)(x % 500), (double)(y % 17) / 16))
    case 8: MANY(std::discrete_distribution<int> d({ a, b, 1.0, a }))
    case 9: MANY(std::bernoulli_distribution d((double)(x % 17) / 16))
    case 10: MANY(std::exponential_distribution<double> d(a))
    case 11: for (std::size_t i = 0; i < n; ++i) o.push_back(std::generate_canonical<double, 53>(e)); return;
    case 12: for (std::size_t i = 0; i < n; ++i) o.push_back(std::generate_canonical<float, 24>(e)); return;
    case 13: { std::vector<int> v(2 + x % 200); std::iota(v.begin(), v.end(), 0); std::shuffle(v.begin(), v.end(), e); o.insert(o.end(), v.begin(), v.end()); return; }
    case 14: { std::vector<int> v(2 + x % 200), r(1 + y % 20); std::iota(v.begin(), v.end(), 0); r.resize(std::sample(v.begin(), v.end(), r.begin(), (long)r.size(), e) - r.begin()); o.insert(o.end(), r.begin(), r.end()); return; }
    case 15: { std::vector<u64> v(1 + x % 50); std::generate(v.begin(), v.end(), std::ref(e)); for (u64 q : v) o.push_back((ld)q); return; }
    default: MANY(std::student_t_distribution<double> d(a))
    }
#undef MANY
}
const int NUSE = 17;
template<class B, class S> std::string use_pair(int kind, u64 seed, u64 skip, u64 x, u64 y, std::size_t n) {
    B b((typename B::result_type)seed); S s((typename S::result_type)seed); b.discard(skip); s.discard(skip);
    std::vector<ld> p, q; use(kind, b, p, x, y, n); use(kind, s, q, x, y, n); std::ostringstream os; os.precision(21);
    for (std::size_t i = 0; i < p.size() && i < q.size(); ++i) if (p[i] != q[i]) { os << "value " << i << " is " << p[i] << ", not " << q[i]; return os.str(); }
    if (p.size() != q.size()) return "another number of values"; for (int i = 0; i < 5; ++i) if ((ld)b() != (ld)s()) return "the engine is left elsewhere"; return "";
}
typedef std::string (*UseFn)(int, u64, u64, u64, u64, std::size_t);
const UseFn use_fn[] = { &use_pair<br::mt19937, std::mt19937>, &use_pair<br::mt19937_64, std::mt19937_64>, &use_pair<br::minstd_rand0, std::minstd_rand0>, &use_pair<br::minstd_rand, std::minstd_rand>, &use_pair<br::ranlux24_base, std::ranlux24_base>,
    &use_pair<br::ranlux48_base, std::ranlux48_base>, &use_pair<br::ranlux24, std::ranlux24>, &use_pair<br::ranlux48, std::ranlux48>, &use_pair<br::knuth_b, std::knuth_b> };
const char* const use_name[] = { "mt19937", "mt19937_64", "minstd_rand0", "minstd_rand", "ranlux24_base", "ranlux48_base", "ranlux24", "ranlux48", "knuth_b" };
// ---- two engines that ought to behave alike, A the tested one
template<class A, class B> std::string history(Ctx& c, A a, B b) {
    std::vector<A> as; std::vector<B> bs; std::size_t n = c.s.choose(12);
    for (std::size_t i = 0; i <= n; ++i) {
        switch (c.s.choose(5)) {
        case 0: case 1: { u64 k = c.s.choose(40); for (u64 j = 0; j < k; ++j) { u64 x = (u64)a(), y = (u64)b(); if (x != y) return "value " + str(x) + ", not " + str(y); } break; }
        case 2: { u64 k = c.s.choose(300); a.discard(k); b.discard(k); break; }
        case 3: as.push_back(a); bs.push_back(b); break;
        case 4: if (!as.empty()) { if ((a == as.back()) != (b == bs.back())) return "== answers differently"; std::swap(a, as.back()); std::swap(b, bs.back()); } break;
        default: { std::stringstream ss; ss << a; A f; ss >> f; if (!ss) return "does not read its own text"; if (!(f == a)) return "not equal after reading its own text"; a = f; break; }
        }
    }
    for (int i = 0; i < 20; ++i) { u64 x = (u64)a(), y = (u64)b(); if (x != y) return "value " + str(x) + ", not " + str(y) + " at the end"; } return "";
}
// an integer that every seed type holds
template<class A, class B> u64 seed_of(Ctx& c) { return (u64)(typename A::result_type)(typename B::result_type)c.s.special(0xffffffffu); }
template<class A, class B> std::string by_value(Ctx& c) {
    u64 v = seed_of<A, B>(c); if (c.s.coin()) return history(c, A((typename A::result_type)v), B((typename B::result_type)v));
    A a; B b; a.discard(c.s.choose(50)); a.seed((typename A::result_type)v); b.seed((typename B::result_type)v); return history(c, a, b);
}
std::vector<u32> words(Ctx& c) { std::vector<u32> w(c.s.choose(8)); for (u32& x : w) x = (u32)c.s.special(0xffffffffu); return w; }
template<class A, class B> std::string by_seq(Ctx& c) {
    std::vector<u32> w = words(c); std::seed_seq p(w.begin(), w.end()), q(w.begin(), w.end()); br::seed_seq r(w.begin(), w.end()); B b(q);
    switch (c.s.choose(3)) { case 0: return history(c, A(p), b); case 1: return history(c, A(r), b); case 2: { A a; a.discard(3); a.seed(p); return history(c, a, b); } default: { A a; a.discard(3); a.seed(r); return history(c, a, b); } }
}
template<class A, class B, class EA, class EB> std::string by_base(Ctx& c) {
    u64 v = seed_of<EA, EB>(c), k = c.s.choose(100); EA ea((typename EA::result_type)v); EB eb((typename EB::result_type)v); ea.discard(k); eb.discard(k); A a(ea); B b(eb);
    return history(c, a, b);
}
typedef std::string (*PairFn)(Ctx&); struct PairT { const char* name; PairFn f; };
#define ALL3(N, A, B, EA, EB) { N " from a value", &by_value<A, B > }, { N " from a seed sequence", &by_seq<A, B > }, { N " from an engine", &by_base<A, B, EA, EB > }
#define COMMA ,
// the library's adaptors over a standard engine, the reference being the same over the library's engine
const PairT boost_ad[] = {
    ALL3("discard_block_engine<std::mt19937, 17, 5>", br::discard_block_engine<std::mt19937 COMMA 17 COMMA 5>, br::discard_block_engine<br::mt19937 COMMA 17 COMMA 5>, std::mt19937, br::mt19937),
    ALL3("discard_block_engine<std::ranlux48_base, 389, 11>", br::discard_block_engine<std::ranlux48_base COMMA 389 COMMA 11>, std::ranlux48, std::ranlux48_base, std::ranlux48_base),
    ALL3("discard_block_engine<std::ranlux24_base, 223, 23>", br::discard_block_engine<std::ranlux24_base COMMA 223 COMMA 23>, std::ranlux24, std::ranlux24_base, std::ranlux24_base),
    ALL3("shuffle_order_engine<std::minstd_rand0, 256>", br::shuffle_order_engine<std::minstd_rand0 COMMA 256>, std::knuth_b, std::minstd_rand0, std::minstd_rand0),
    ALL3("shuffle_order_engine<std::mt19937_64, 13>", br::shuffle_order_engine<std::mt19937_64 COMMA 13>, br::shuffle_order_engine<br::mt19937_64 COMMA 13>, std::mt19937_64, br::mt19937_64),
    ALL3("shuffle_order_engine<std::mt19937, 32>", br::shuffle_order_engine<std::mt19937 COMMA 32>, std::shuffle_order_engine<std::mt19937 COMMA 32>, std::mt19937, std::mt19937),
    ALL3("independent_bits_engine<std::minstd_rand, 40, uint64>", br::independent_bits_engine<std::minstd_rand COMMA 40 COMMA std::uint64_t>, br::independent_bits_engine<br::minstd_rand COMMA 40 COMMA std::uint64_t>, std::minstd_rand, br::minstd_rand),
    ALL3("independent_bits_engine<std::mt19937, 9, uint16>", br::independent_bits_engine<std::mt19937 COMMA 9 COMMA std::uint16_t>, br::independent_bits_engine<br::mt19937 COMMA 9 COMMA std::uint16_t>, std::mt19937, br::mt19937),
    ALL3("independent_bits_engine<std::mt19937, 64, uint64>", br::independent_bits_engine<std::mt19937 COMMA 64 COMMA std::uint64_t>, br::independent_bits_engine<br::mt19937 COMMA 64 COMMA std::uint64_t>, std::mt19937, br::mt19937),
    { "xor_combine_engine<std::mt19937, 0, std::minstd_rand, 1> from a value", &by_value<br::xor_combine_engine<std::mt19937, 0, std::minstd_rand, 1>, br::xor_combine_engine<br::mt19937, 0, br::minstd_rand, 1> > },
    { "xor_combine_engine<std::mt19937, 0, std::minstd_rand, 1> from a seed sequence", &by_seq<br::xor_combine_engine<std::mt19937, 0, std::minstd_rand, 1>, br::xor_combine_engine<br::mt19937, 0, br::minstd_rand, 1> > } };
// standard adaptors over the library's engines, the reference being the same over the standard engine
const PairT std_ad[] = {
    ALL3("std::discard_block_engine<mt19937, 17, 5>", std::discard_block_engine<br::mt19937 COMMA 17 COMMA 5>, std::discard_block_engine<std::mt19937 COMMA 17 COMMA 5>, br::mt19937, std::mt19937),
    ALL3("std::discard_block_engine<ranlux48_base, 389, 11>", std::discard_block_engine<br::ranlux48_base COMMA 389 COMMA 11>, std::ranlux48, br::ranlux48_base, std::ranlux48_base),
    ALL3("std::shuffle_order_engine<minstd_rand0, 256>", std::shuffle_order_engine<br::minstd_rand0 COMMA 256>, std::knuth_b, br::minstd_rand0, std::minstd_rand0),
    ALL3("std::shuffle_order_engine<ranlux24, 7>", std::shuffle_order_engine<br::ranlux24 COMMA 7>, std::shuffle_order_engine<std::ranlux24 COMMA 7>, br::ranlux24, std::ranlux24),
    ALL3("std::independent_bits_engine<minstd_rand, 40, uint64>", std::independent_bits_engine<br::minstd_rand COMMA 40 COMMA std::uint64_t>, std::independent_bits_engine<std::minstd_rand COMMA 40 COMMA std::uint64_t>, br::minstd_rand, std::minstd_rand),
    ALL3("std::independent_bits_engine<mt19937_64, 7, uint32>", std::independent_bits_engine<br::mt19937_64 COMMA 7 COMMA std::uint32_t>, std::independent_bits_engine<std::mt19937_64 COMMA 7 COMMA std::uint32_t>, br::mt19937_64, std::mt19937_64) };
// engines themselves by either kind of seed sequence
template<class S> std::string std_by_boost(Ctx& c) { std::vector<u32> w = words(c); std::seed_seq q(w.begin(), w.end()); br::seed_seq r(w.begin(), w.end()); S a(r), b(q); if (c.s.coin()) { a.discard(5); a.seed(r); } return history(c, a, b); }
const PairT seqs[] = { { "std::mt19937 from boost::random::seed_seq", &std_by_boost<std::mt19937> }, { "std::mt19937_64 from boost::random::seed_seq", &std_by_boost<std::mt19937_64> }, { "std::minstd_rand from boost::random::seed_seq", &std_by_boost<std::minstd_rand> },
    { "std::ranlux48 from boost::random::seed_seq", &std_by_boost<std::ranlux48> }, { "std::knuth_b from boost::random::seed_seq", &std_by_boost<std::knuth_b> },
    { "mt19937", &by_seq<br::mt19937, std::mt19937> }, { "mt19937_64", &by_seq<br::mt19937_64, std::mt19937_64> }, { "minstd_rand0", &by_seq<br::minstd_rand0, std::minstd_rand0> }, { "minstd_rand", &by_seq<br::minstd_rand, std::minstd_rand> },
    { "ranlux24_base", &by_seq<br::ranlux24_base, std::ranlux24_base> }, { "ranlux48_base", &by_seq<br::ranlux48_base, std::ranlux48_base> }, { "ranlux24", &by_seq<br::ranlux24, std::ranlux24> }, { "ranlux48", &by_seq<br::ranlux48, std::ranlux48> }, { "knuth_b", &by_seq<br::knuth_b, std::knuth_b> } };
template<std::size_t N> void run(Ctx& c, const PairT (&t)[N], const char* ref) { const PairT& p = t[c.s.choose(N - 1)]; c.label(p.name); c.nontrivial(); std::string e = p.f(c); REQUIRE(c, e.empty(), std::string(p.name) + " against " + ref + ": " + e); }
}
}
using namespace vf;
void std_over_boost(Ctx& c) {
    std::size_t i = c.s.choose(sizeof use_fn / sizeof *use_fn - 1); int kind = (int)c.s.choose(NUSE - 1); u64 seed = c.s.special(0xffffffffu), skip = c.s.choose(800), x = c.s.special(~0ull), y = c.s.special(~0ull); std::size_t n = 1 + c.s.choose(6);
    c.label(use_name[i]); if (n > 1 || kind > 12) c.nontrivial(); std::string e = use_fn[i](kind, seed, skip, x, y, n);
    REQUIRE(c, e.empty(), "standard use " + str(kind) + " (x " + str(x) + ", y " + str(y) + ") over boost::random::" + use_name[i] + " seeded with " + str(seed) + " and " + str(skip) + " values in, against std::" + use_name[i] + ": " + e);
}
void std_adaptors(Ctx& c) { run(c, std_ad, "the same over the standard engine"); }
void boost_adaptors(Ctx& c) { run(c, boost_ad, "the same over an equal engine"); }
void seed_sequences(Ctx& c) { run(c, seqs, "std::seed_seq"); }
