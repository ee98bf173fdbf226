// A small property-based-testing runtime.
//
// Every random decision of a case is a bounded integer "choice" drawn from Src.
// The sequence of choices is the case: it is what is hashed for distinctness,
// what the shrinker reduces, and what the replay file stores.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cassert>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

typedef std::uint64_t u64;
typedef std::int64_t i64;
typedef unsigned __int128 u128;

inline u64 mix(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hash_str(const char* s) {
    u64 h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return mix(h);
}

// The runtime's own generator (xoshiro256**): independent of the code under test.
struct Prng {
    u64 s[4];
    explicit Prng(u64 seed = 0) { reseed(seed); }
    void reseed(u64 seed) { for (int i = 0; i < 4; ++i) s[i] = seed = mix(seed + i); }
    static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    u64 next() {
        u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    u64 below(u64 n) { return n ? (u64)(((u128)next() * n) >> 64) : next(); }
};

struct Failure : std::exception {
    std::string msg;
    explicit Failure(const std::string& m) : msg(m) {}
    const char* what() const throw() { return msg.c_str(); }
};

class Src {
public:
    Src(u64 seed) : prng_(seed), replay_(false), pos_(0) {}
    Src(const std::vector<u64>& c) : prng_(0), replay_(true), pos_(0), given_(c) {}
    // uniform in [0, max]
    u64 choose(u64 max) {
        u64 v;
        if (replay_) {
            v = pos_ < given_.size() ? given_[pos_] : 0; ++pos_;
            if (v > max) v = max == ~0ull ? v : v % (max + 1);
        } else {
            v = max == ~0ull ? prng_.next() : prng_.below(max + 1);
        }
        made_.push_back(v);
        return v;
    }
    // a choice fixed by the case index (for enumerations); replayable
    u64 forced(u64 value, u64 max) {
        if (replay_) return choose(max);
        made_.push_back(value); return value;
    }
    u64 range(u64 lo, u64 hi) { return lo + choose(hi - lo); }
    i64 irange(i64 lo, i64 hi) { return (i64)((u64)lo + choose((u64)hi - (u64)lo)); }
    bool coin() { return choose(1) != 0; }
    bool chance(unsigned num, unsigned den) { return choose(den - 1) >= den - num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[choose(v.size() - 1)]; }
    template<class T, std::size_t N> const T& pick(const T (&v)[N]) { return v[choose(N - 1)]; }
    // boundary-biased value in [0, max]; shrinks towards 0
    u64 special(u64 max = ~0ull) {
        switch (choose(9)) {
        case 0: return 0;
        case 1: return max < 1 ? max : 1;
        case 2: return max;
        case 3: return max - choose(max < 3 ? max : 3);
        case 4: { u64 k = choose(63); u64 v = (u64)1 << k; return v <= max ? v : v & max; }
        case 5: { u64 k = choose(63); u64 v = ((u64)1 << k) - 1; return v <= max ? v : v & max; }
        case 6: { u64 k = choose(63); u64 v = ((u64)1 << k) + 1; return v <= max ? v : v & max; }
        case 7: return choose(max < 20 ? max : 20);
        case 8: { u64 k = choose(63); u64 m = k == 63 ? ~0ull : ((u64)2 << k) - 1; if (m > max) m = max; return choose(m); }
        default: return choose(max);
        }
    }
    // a small count, biased to be near the given hints
    u64 count(const std::vector<u64>& hints, u64 cap) {
        u64 v;
        switch (choose(4)) {
        case 0: v = choose(cap < 6 ? cap : 6); break;
        case 1: case 2:
            if (!hints.empty()) {
                u64 h = hints[choose(hints.size() - 1)], m = choose(3), d = choose(4);
                v = h * (m == 0 ? 1 : m) + d; v = v >= 2 ? v - 2 : 0;
                if (chance(1, 4) && !hints.empty()) v += hints[choose(hints.size() - 1)];
                break;
            } // fallthrough
        case 3: { u64 k = choose(20); u64 m = ((u64)1 << k); v = choose(m < cap ? m : cap); break; }
        default: v = choose(cap); break;
        }
        return v > cap ? cap : v;
    }
    double u01() { return (double)choose((1ull << 53) - 1) * (1.0 / 9007199254740992.0); }
    // log-uniform in [lo, hi]
    double logu(double lo, double hi) { return lo * std::exp(u01() * std::log(hi / lo)); }
    const std::vector<u64>& made() const { return made_; }
private:
    Prng prng_;
    bool replay_;
    std::size_t pos_;
    std::vector<u64> given_, made_;
};

struct Ctx {
    Src s;
    bool verbose;
    bool replayed;                // run from a list of choices
    bool thorough;
    bool interesting;
    u64 index;                    // case index inside the sub-check
    u64 evals;                    // inner evaluations (oracle comparisons)
    std::ostringstream text;
    std::vector<std::string> labels;
    std::string finding;          // identity of a known finding, if the failing case is one
    Ctx(const Src& src) : s(src), verbose(false), replayed(false), thorough(false), interesting(false), index(0), evals(0) {}
    void label(const std::string& l) { labels.push_back(l); }
    void nontrivial(bool b = true) { interesting = interesting || b; }
    // index-driven enumeration of 0..n-1 that is still a recorded choice
    u64 enumerate(u64 n) { return s.forced(index % n, n - 1); }
};

typedef void (*case_fn)(Ctx&);
struct Sub {
    std::string name;
    std::function<void(Ctx&)> fn;
    u64 quick, thorough;          // number of cases per tier
};
std::vector<Sub>& subs();         // filled by register_checks()
void add(const std::string& name, u64 quick, u64 thorough, std::function<void(Ctx&)> fn);

inline void fail(const std::string& m) { throw Failure(m); }
template<class T> std::string str(const T& v) { std::ostringstream o; o.precision(21); o << v; return o.str(); }
inline std::string str(u128 v) {
    if (!v) return "0"; std::string r; while (v) { r.insert(r.begin(), char('0' + (int)(v % 10))); v /= 10; } return r;
}

int main_impl(int argc, char** argv, const char* property, const char* rule);

} // namespace pbt

#define NOTE(ctx, expr) do { if ((ctx).verbose) { (ctx).text << expr << "; "; } } while (0)
#define REQUIRE(ctx, cond, expr) do { ++(ctx).evals; if (!(cond)) { std::ostringstream o_; o_.precision(21); o_ << expr; throw ::pbt::Failure(o_.str()); } } while (0)

#endif
