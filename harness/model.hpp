// Independent reference models of the engines, written from the published
// definitions (and the documented seeding procedures) with wide arithmetic.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "pbt.hpp"
#include <memory>
#include <vector>
#include <functional>

namespace vf {
typedef pbt::u64 mu64; typedef pbt::u128 mu128; typedef std::uint32_t mu32;

// Where a model takes its seed from.
struct Seeder {
    enum Kind { VALUE, SEQ, RANGE } kind;
    mu128 value;                                       // VALUE: the seed after conversion to the seed type, sign-extended when negative
    bool negative;                                     // VALUE: the (signed) seed is negative; value then holds its magnitude
    std::function<std::vector<mu32>(std::size_t)> gen; // SEQ: what one generate() call of that length yields
    std::vector<mu32> words; std::size_t pos;          // RANGE
    Seeder() : kind(VALUE), value(0), negative(false), pos(0) {}
    std::vector<mu32> take(std::size_t n) {
        if (kind == SEQ) return gen(n);
        std::vector<mu32> v; for (std::size_t i = 0; i < n; ++i) v.push_back(words.at(pos++)); return v;
    }
    // value reduced modulo 2^bits
    mu64 low(int bits) const { mu64 v = (mu64)value; if (negative) v = 0 - v; return bits >= 64 ? v : v & (((mu64)1 << bits) - 1); }
};

struct Model { virtual ~Model() {} virtual long double next() = 0; virtual Model* clone() const = 0;
    virtual bool jump(mu64) { return false; }           // advance by z steps in logarithmic time, where a closed form is known
    // range of the output function (closed for integers, half-open for real engines)
    virtual bool bounds(long double&, long double&) const { return false; }
};
typedef std::unique_ptr<Model> ModelP;
// isdefault: seed with the engine's documented default
typedef std::function<Model*(Seeder&, bool isdefault)> ModelFactory;

inline mu64 mlow(mu64 v, int w) { return w >= 64 ? v : v & (((mu64)1 << w) - 1); }
inline int ceil_log2(mu128 m) { int b = 0; while (((mu128)1 << b) < m) ++b; return b; }

// x <- a x + c mod m   (m as a 128-bit number so that 2^64 can be expressed)
struct LcgM : Model {
    mu128 a, c, m, x;
    LcgM(mu128 a_, mu128 c_, mu128 m_) : a(a_), c(c_), m(m_), x(1) {}
    void set(mu128 v) { x = v % m; if (c % m == 0 && x == 0) x = 1; }
    static mu128 mulmod(mu128 p, mu128 q, mu128 m) { // p,q < m <= 2^64
        return p * q % m;
    }
    void seed(Seeder& s, bool dflt, mu64 dv) {
        if (dflt) { set(dv); return; }
        if (s.kind == Seeder::VALUE) { mu128 v = s.value % m; if (s.negative) v = (m - v) % m; set(v); return; }
        int k = (ceil_log2(m) + 31) / 32; if (k < 1) k = 1;
        std::vector<mu32> w = s.take(s.kind == Seeder::SEQ ? k + 3 : k);
        mu128 v = 0; int off = s.kind == Seeder::SEQ ? 3 : 0;
        for (int j = k - 1; j >= 0; --j) v = (v << 32) | w[off + j];
        set(v);
    }
    mu128 step() { x = (mulmod(a % m, x, m) + c % m) % m; return x; }
    long double next() { return (long double)(mu64)step(); }
    // z-fold composition of the affine map by repeated squaring
    bool jump(mu64 z) {
        mu128 A = a % m, C = c % m, ra = 1 % m, rc = 0;
        for (; z; z >>= 1) {
            if (z & 1) { rc = (mulmod(A, rc, m) + C) % m; ra = mulmod(A, ra, m); }
            C = (mulmod(A, C, m) + C) % m; A = mulmod(A, A, m);
        }
        x = (mulmod(ra, x, m) + rc) % m; return true;
    }
    bool bounds(long double& lo, long double& hi) const { lo = c % m == 0 ? 1 : 0; hi = (long double)(mu64)(m - 1); return true; }
    Model* clone() const { return new LcgM(*this); }
};
inline ModelFactory lcg_model(mu64 a, mu64 c, mu128 m) {
    return [=](Seeder& s, bool d) -> Model* { LcgM* r = new LcgM(a, c, m); r->seed(s, d, 1); return r; };
}
// drand48 family: 48-bit state, 31 output bits
struct Rand48M : Model {
    mu64 x;
    Rand48M() : x(0) {}
    long double next() { x = (0x5DEECE66Dull * x + 0xB) & 0xFFFFFFFFFFFFull; return (long double)(x >> 17); }
    bool jump(mu64 z) { LcgM l(0x5DEECE66Dull, 0xB, (mu128)1 << 48); l.x = x; l.jump(z); x = (mu64)l.x; return true; }
    bool bounds(long double& lo, long double& hi) const { lo = 0; hi = 2147483647.0L; return true; }
    Model* clone() const { return new Rand48M(*this); }
};
inline ModelFactory rand48_model() {
    return [](Seeder& s, bool d) -> Model* {
        Rand48M* r = new Rand48M;
        if (d) r->x = (1ull << 16) | 0x330E;
        else if (s.kind == Seeder::VALUE) r->x = (s.low(32) << 16) | 0x330E;
        else { LcgM l(0x5DEECE66Dull, 0xB, (mu128)1 << 48); l.seed(s, false, 1); r->x = (mu64)l.x; }
        return r;
    };
}
// x <- a * inv(x) + b mod p, inv(0) = 0, inverse by Fermat exponentiation
struct IcgM : Model {
    mu128 a, b, p, x;
    IcgM(mu128 a_, mu128 b_, mu128 p_) : a(a_), b(b_), p(p_), x(1) {}
    mu128 inv(mu128 v) const { mu128 r = 1, e = p - 2, z = v % p; if (!z) return 0; if (p == 2) return z; while (e) { if (e & 1) r = r * z % p; z = z * z % p; e >>= 1; } return r; }
    long double next() { x = (a * inv(x) + b) % p; return (long double)(mu64)x; }
    bool bounds(long double& lo, long double& hi) const { lo = b == 0 ? 1 : 0; hi = (long double)(mu64)(p - 1); return true; }
    Model* clone() const { return new IcgM(*this); }
};
inline ModelFactory icg_model(mu64 a, mu64 b, mu64 p) {
    return [=](Seeder& s, bool d) -> Model* { IcgM* r = new IcgM(a, b, p); LcgM l(0, b, p); l.seed(s, d, 1); r->x = l.x; return r; };
}
// L'Ecuyer's additive combination
struct AddM : Model {
    LcgM p, q;
    AddM(const LcgM& p_, const LcgM& q_) : p(p_), q(q_) {}
    long double next() { mu128 u = p.step(), v = q.step(); mu128 z = (u + (p.m - 1) * ((v / (p.m - 1)) + 1) - v) % (p.m - 1); if (z == 0) z = p.m - 1; return (long double)(mu64)z; }
    bool jump(mu64 z) { p.jump(z); q.jump(z); return true; }
    bool bounds(long double& lo, long double& hi) const { lo = 1; hi = (long double)(mu64)(p.m - 1); return true; }
    Model* clone() const { return new AddM(*this); }
};
inline ModelFactory add_model(mu64 a1, mu64 m1, mu64 a2, mu64 m2) {
    return [=](Seeder& s, bool d) -> Model* { AddM* r = new AddM(LcgM(a1, 0, m1), LcgM(a2, 0, m2)); r->p.seed(s, d, 1); r->q.seed(s, d, 1); return r; };
}
// Tausworthe: the w-bit word slides s bits along the bit stream b[n+k] = b[n] xor b[n+q]
struct TausM : Model {
    int w, k, q, s; std::vector<int> b;                 // b[0] = most significant bit
    long double next() {
        std::vector<int> n(w);
        for (int i = 0; i < w; ++i) n[i] = i < k - s ? b[i + s] : b[i - (k - s)] ^ (i - (k - s) + q < w ? b[i - (k - s) + q] : 0);
        b = n; mu64 v = 0; for (int i = 0; i < w; ++i) v = v << 1 | b[i]; return (long double)v;
    }
    bool bounds(long double& lo, long double& hi) const { lo = 0; hi = (w >= 64 ? 18446744073709551615.0L : (long double)(((mu64)1 << w) - 1)); return true; }
    Model* clone() const { return new TausM(*this); }
};
inline ModelFactory taus_model(int w, int k, int q, int s_) {
    return [=](Seeder& s, bool d) -> Model* {
        TausM* r = new TausM; r->w = w; r->k = k; r->q = q; r->s = s_;
        mu64 v;
        if (d) v = mlow(341, w);
        else if (s.kind == Seeder::VALUE) v = s.low(w);
        else { LcgM l(0, 1, w == 64 ? (mu128)1 << 64 : (mu128)1 << w); l.c = 1; l.seed(s, false, 1); v = (mu64)l.x; }
        if (v < ((mu64)1 << (w - k))) v += (mu64)1 << (w - k);
        for (int i = w - 1; i >= 0; --i) r->b.push_back((v >> i) & 1);
        return r;
    };
}
struct XorM : Model {
    ModelP x, y; int s1, s2, w;
    long double next() { mu64 u = (mu64)x->next(), v = (mu64)y->next(); return (long double)mlow((u << s1) ^ (v << s2), w); }
    bool bounds(long double& lo, long double& hi) const { long double a, b; if (!x->bounds(a, b) || a != 0) return false; mu64 u = mlow((mu64)b << s1, w); if (!y->bounds(a, b) || a != 0) return false; lo = 0; hi = (long double)(u | mlow((mu64)b << s2, w)); return true; }
    Model* clone() const { XorM* r = new XorM; r->x.reset(x->clone()); r->y.reset(y->clone()); r->s1 = s1; r->s2 = s2; r->w = w; return r; }
};
inline ModelFactory xor_model(ModelFactory f, int s1, ModelFactory g, int s2, int w) {
    return [=](Seeder& s, bool d) -> Model* { XorM* r = new XorM; r->s1 = s1; r->s2 = s2; r->w = w; r->x.reset(f(s, d)); r->y.reset(g(s, d)); return r; };
}
// Matsumoto-Nishimura, literal recurrence over the whole history window
struct MtParams { int w, n, m, r; mu64 a; int u; mu64 d; int s; mu64 b; int t; mu64 c; int l; mu64 f; };
struct MtM : Model {
    MtParams p; std::vector<mu64> x; std::size_t i;
    long double next() {
        mu64 up = mlow(~0ull << p.r, p.w), lo = mlow(~up, p.w);
        std::size_t n = p.n;
        mu64 y = (x[i] & up) | (x[(i + 1) % n] & lo);
        mu64 v = x[(i + p.m) % n] ^ (y >> 1) ^ ((y & 1) ? p.a : 0);
        x[i] = v; i = (i + 1) % n;
        mu64 z = v; z ^= (z >> p.u) & p.d; z ^= mlow(z << p.s, p.w) & p.b; z ^= mlow(z << p.t, p.w) & p.c; z ^= z >> p.l;
        return (long double)mlow(z, p.w);
    }
    bool bounds(long double& lo, long double& hi) const { lo = 0; hi = (p.w >= 64 ? 18446744073709551615.0L : (long double)(((mu64)1 << p.w) - 1)); return true; }
    Model* clone() const { return new MtM(*this); }
};
inline ModelFactory mt_model(MtParams p) {
    return [=](Seeder& s, bool d) -> Model* {
        MtM* r = new MtM; r->p = p; r->i = 0; r->x.resize(p.n);
        if (d || s.kind == Seeder::VALUE) {
            r->x[0] = d ? mlow(5489, p.w) : s.low(p.w);
            for (int i = 1; i < p.n; ++i) r->x[i] = mlow(p.f * (r->x[i-1] ^ (r->x[i-1] >> (p.w - 2))) + i, p.w);
        } else {
            int k = (p.w + 31) / 32; std::vector<mu32> v = s.take((std::size_t)k * p.n);
            bool zero = true;
            for (int i = 0; i < p.n; ++i) {
                mu64 z = 0; for (int j = 0; j < k; ++j) z |= (mu64)v[i * k + j] << (32 * j);
                r->x[i] = mlow(z, p.w);
                if (i == 0 ? (r->x[0] >> p.r >> 0) != 0 : r->x[i] != 0) zero = false;
            }
            if (zero) r->x[0] = (mu64)1 << (p.w - 1);
        }
        return r;
    };
}
// word-sized state read k words at a time, least significant word first
inline std::vector<mu64> take_words(Seeder& s, int w, int n) {
    int k = (w + 31) / 32; std::vector<mu32> v = s.take((std::size_t)k * n); std::vector<mu64> x(n);
    for (int i = 0; i < n; ++i) { mu64 z = 0; for (int j = 0; j < k; ++j) z |= (mu64)v[i * k + j] << (32 * j); x[i] = mlow(z, w); }
    return x;
}
// a Seeder that hands out successive outputs of an LCG
inline Seeder lcg_seeder(std::shared_ptr<LcgM> g) {
    Seeder s; s.kind = Seeder::SEQ; s.gen = [g](std::size_t n) { std::vector<mu32> v; for (std::size_t i = 0; i < n; ++i) v.push_back((mu32)g->step()); return v; }; return s;
}
// Marsaglia-Zaman subtract with carry; scale = 0 for integers, else output is multiplied by 2^-w
struct SwcM : Model {
    int w, s, r; bool real; std::vector<mu64> x; std::size_t i; int c;
    long double next() {
        mu64 xs = x[(i + r - s) % r], xr = x[i];
        mu128 M = (mu128)1 << w, sub = (mu128)xr + c;
        if ((mu128)xs >= sub) { c = 0; x[i] = (mu64)(xs - sub); } else { c = 1; x[i] = (mu64)(M + xs - sub); }
        mu64 v = x[i]; i = (i + 1) % r;
        return real ? std::ldexp((long double)v, -w) : (long double)v;
    }
    bool bounds(long double& lo, long double& hi) const { lo = 0; hi = real ? 1 : (w >= 64 ? 18446744073709551615.0L : (long double)(((mu64)1 << w) - 1)); return true; }
    Model* clone() const { return new SwcM(*this); }
};
inline ModelFactory swc_model(int w, int s_, int r_, bool real) {
    return [=](Seeder& s, bool d) -> Model* {
        SwcM* m = new SwcM; m->w = w; m->s = s_; m->r = r_; m->real = real; m->i = 0;
        if (d || s.kind == Seeder::VALUE) {
            std::shared_ptr<LcgM> g(new LcgM(40014, 0, 2147483563));
            mu64 v = d ? 19780503u : (s.value == 0 ? 19780503u : s.low(32));
            g->set(v & 0xffffffffu);
            Seeder q = lcg_seeder(g); m->x = take_words(q, w, r_);
        } else m->x = take_words(s, w, r_);
        m->c = m->x[r_ - 1] == 0;
        return m;
    };
}
struct LagM : Model {
    int w, p, q; bool real; std::vector<mu64> x; std::size_t i;
    long double next() {
        x[i] = mlow(x[i] + x[(i + p - q) % p], w); mu64 v = x[i]; i = (i + 1) % p;
        return real ? std::ldexp((long double)v, -w) : (long double)v;
    }
    bool bounds(long double& lo, long double& hi) const { lo = 0; hi = real ? 1 : (w >= 64 ? 18446744073709551615.0L : (long double)(((mu64)1 << w) - 1)); return true; }
    Model* clone() const { return new LagM(*this); }
};
inline ModelFactory lag_model(int w, int p, int q, bool real) {
    return [=](Seeder& s, bool d) -> Model* {
        LagM* m = new LagM; m->w = w; m->p = p; m->q = q; m->real = real; m->i = 0;
        if (d || s.kind == Seeder::VALUE) {
            std::shared_ptr<LcgM> g(new LcgM(16807, 0, 2147483647));
            g->set(d ? 331u : s.low(32));
            Seeder z = lcg_seeder(g); m->x = take_words(z, w, p);
        } else m->x = take_words(s, w, p);
        return m;
    };
}
struct SplitM : Model {
    mu64 st;
    long double next() { st += 0x9E3779B97F4A7C15ull; mu64 z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (long double)(z ^ (z >> 31)); }
    bool bounds(long double& lo, long double& hi) const { lo = 0; hi = 18446744073709551615.0L; return true; }
    Model* clone() const { return new SplitM(*this); }
};
inline ModelFactory split_model() {
    return [](Seeder& s, bool d) -> Model* {
        SplitM* m = new SplitM;
        if (d || s.kind == Seeder::VALUE) { m->st = d ? 0 : s.low(64); if (m->st == 0) m->st = 0xA164B43C8F634A13ull; }
        else { std::vector<mu32> w = s.take(2); m->st = (mu64)w[0] << 32 | w[1]; }
        return m;
    };
}
// MIXMAX N=17, m=2^36+1, s=0: V <- A V over GF(2^61-1); streams start at A^(sum id_k 2^(512+32k)) e_0
ModelFactory mixmax_model();
// adaptors
struct DiscardBlockM : Model {
    ModelP b; std::size_t p, r, n;
    long double next() { if (n == r) { for (std::size_t i = r; i < p; ++i) b->next(); n = 0; } ++n; return b->next(); }
    bool bounds(long double& lo, long double& hi) const { return b->bounds(lo, hi); }
    Model* clone() const { DiscardBlockM* m = new DiscardBlockM; m->b.reset(b->clone()); m->p = p; m->r = r; m->n = n; return m; }
};
inline ModelFactory db_model(ModelFactory f, std::size_t p, std::size_t r) {
    return [=](Seeder& s, bool d) -> Model* { DiscardBlockM* m = new DiscardBlockM; m->b.reset(f(s, d)); m->p = p; m->r = r; m->n = 0; return m; };
}
struct ShuffleM : Model {
    ModelP b; std::size_t k; __int128 lo, hi; std::vector<long double> v; long double y;
    long double next() {
        mu128 off = (mu128)((__int128)y - lo), R = (mu128)(hi - lo) + 1;
        std::size_t j = (std::size_t)(off * k / R);
        y = v[j]; v[j] = b->next(); return y;
    }
    bool bounds(long double& lo, long double& hi) const { return b->bounds(lo, hi); }
    Model* clone() const { ShuffleM* m = new ShuffleM; m->b.reset(b->clone()); m->k = k; m->lo = lo; m->hi = hi; m->v = v; m->y = y; return m; }
};
inline ModelFactory shuffle_model(ModelFactory f, std::size_t k, __int128 lo, __int128 hi) {
    return [=](Seeder& s, bool d) -> Model* {
        ShuffleM* m = new ShuffleM; m->b.reset(f(s, d)); m->k = k; m->lo = lo; m->hi = hi;
        for (std::size_t i = 0; i < k; ++i) m->v.push_back(m->b->next());
        m->y = m->b->next(); return m;
    };
}
// [rand.adapt.ibits]
struct BitsPlan { std::size_t n, n0; int w0; mu128 y0, y1; };
inline BitsPlan bits_plan(int w, mu128 R) {
    BitsPlan q; int m = 0; while (m < 127 && ((mu128)2 << m) <= R) ++m;
    q.n = (w + m - 1) / m;
    for (int round = 0; round < 2; ++round) {
        q.w0 = w / q.n; q.n0 = q.n - w % q.n;
        q.y0 = (R >> q.w0) << q.w0; q.y1 = (R >> (q.w0 + 1)) << (q.w0 + 1);
        if (round == 0) { if (R - q.y0 <= q.y0 / q.n) break; ++q.n; }
    }
    return q;
}
template<class NextOff> mu128 bits_draw(const BitsPlan& q, NextOff next) {
    mu128 S = 0;
    for (std::size_t k = 0; k < q.n; ++k) {
        bool first = k < q.n0; int w = first ? q.w0 : q.w0 + 1; mu128 y = first ? q.y0 : q.y1, u;
        do u = next(); while (u >= y);
        S = (S << w) | (u & (((mu128)1 << w) - 1));
    }
    return S;
}
struct BitsM : Model {
    ModelP b; BitsPlan q; __int128 lo; int w;
    long double next() { return (long double)(mu64)bits_draw(q, [this]() { return (mu128)((__int128)b->next() - lo); }); }
    bool bounds(long double& l, long double& h) const { l = 0; h = (w >= 64 ? 18446744073709551615.0L : (long double)(((mu64)1 << w) - 1)); return true; }
    Model* clone() const { BitsM* m = new BitsM; m->b.reset(b->clone()); m->q = q; m->lo = lo; m->w = w; return m; }
};
inline ModelFactory bits_model(ModelFactory f, int w, __int128 lo, __int128 hi) {
    return [=](Seeder& s, bool d) -> Model* { BitsM* m = new BitsM; m->b.reset(f(s, d)); m->q = bits_plan(w, (mu128)(hi - lo) + 1); m->lo = lo; m->w = w; return m; };
}
} // namespace vf
#endif
