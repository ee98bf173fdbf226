// Type-erased view of the library's engines, so that every engine property is
// written once and run over all of them.
#ifndef VERIF_ENG_HPP
#define VERIF_ENG_HPP
#include "pbt.hpp"
#include "model.hpp"
#include <memory>
#include <iterator>
#include <list>
#include <sstream>
#include <stdexcept>

namespace vf {
using pbt::u64; using pbt::i64; using pbt::u128; using pbt::Ctx; using pbt::str;
typedef std::uint32_t u32;
typedef long double Val;          // holds every <=64-bit integer, float, double and long double exactly

// A seed sequence under the harness' control: it hands out the given words and records the request.
struct VSeq {
    std::function<void(std::vector<u32>&)> fill;   // called with a vector of the requested size
    std::vector<std::size_t> requests;
    template<class It> void generate(It first, It last) {
        std::vector<u32> v(std::distance(first, last));
        requests.push_back(v.size());
        fill(v);
        std::size_t i = 0;
        for (; first != last; ++first) *first = static_cast<typename std::iterator_traits<It>::value_type>(v[i++]);
    }
    typedef u32 result_type;
};

// A single-pass input iterator over words that counts what was read and refuses reads past the end.
struct WState { const std::vector<u32>* w; std::size_t pos; std::size_t reads; std::size_t stop; };   // stop: the read that throws, 0: none
struct Fault { int number; };                     // thrown on request
struct WIt {
    typedef std::input_iterator_tag iterator_category; typedef u32 value_type; typedef std::ptrdiff_t difference_type;
    typedef const u32* pointer; typedef u32 reference;
    WState* st; bool end;
    WIt() : st(0), end(true) {}
    explicit WIt(WState* s) : st(s), end(false) {}
    bool at_end() const { return end || st->pos >= st->w->size(); }
    u32 operator*() const { if (at_end()) pbt::fail("dereferenced the end of the seed range"); ++st->reads; if (st->stop && st->reads == st->stop) { Fault f = { (int)st->stop }; throw f; } return (*st->w)[st->pos]; }
    WIt& operator++() { if (at_end()) pbt::fail("advanced past the end of the seed range"); ++st->pos; return *this; }
    struct Proxy { u32 v; u32 operator*() const { return v; } };
    Proxy operator++(int) { if (at_end()) pbt::fail("dereferenced the end of the seed range"); Proxy p = { **this }; ++*this; return p; }
    friend bool operator==(const WIt& a, const WIt& b) { return a.at_end() == b.at_end() && (a.at_end() || a.st->pos == b.st->pos); }
    friend bool operator!=(const WIt& a, const WIt& b) { return !(a == b); }
};

// An output iterator that counts the assignments to every element.
struct OnceIt {
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    std::vector<u32>* v; std::vector<int>* cnt; std::size_t i;
    struct Ref { std::vector<u32>* v; std::vector<int>* cnt; std::size_t i; void operator=(u64 x) const { if (i >= v->size()) pbt::fail("assigned to the end of the output range"); (*v)[i] = (u32)x; if (x >> 32) pbt::fail("assigned a value of more than 32 bits"); ++(*cnt)[i]; } };
    Ref operator*() const { Ref r = { v, cnt, i }; return r; }
    OnceIt& operator++() { if (i >= v->size()) pbt::fail("advanced past the end of the output range"); ++i; return *this; }
    struct Post { Ref r; Ref operator*() const { return r; } };
    Post operator++(int) { Post p = { **this }; ++*this; return p; }
    friend bool operator==(const OnceIt& a, const OnceIt& b) { return a.i == b.i; }
    friend bool operator!=(const OnceIt& a, const OnceIt& b) { return a.i != b.i; }
};

enum SeedKind { S_DEFAULT, S_VALUE, S_SEQ, S_RANGE_INPUT, S_RANGE_PTR, S_RANGE_LIST, S_BOOST_SEQ, S_STD_SEQ, S_ENGINE_SEQ, S_NKINDS };
struct SeedSpec {
    SeedKind kind; u64 value; std::vector<u32> words; int value_type; // value_type: how the integer is passed
    std::size_t stop;   // the read, or the request to a sequence, that throws a Fault; 0: none
    SeedSpec() : kind(S_DEFAULT), value(0), value_type(0), stop(0) {}
    // filled in after use:
    mutable std::size_t consumed; mutable std::vector<std::size_t> requests; mutable int thrown; // 1 = invalid_argument
};

struct IEng {
    virtual ~IEng() {}
    virtual Val draw() = 0;
    virtual void draws(Val* out, std::size_t n) = 0;
    virtual Val mn() const = 0;
    virtual Val mx() const = 0;
    virtual void discard(u64 z) = 0;
    virtual IEng* clone() const = 0;           // copy construction
    virtual IEng* clone_nc() = 0;              // copy construction from a non-const lvalue (which could be mistaken for a seed sequence)
    virtual void seed_typed(u64 v, int type) = 0;      // the same integer passed as another arithmetic type
    virtual IEng* make_typed(u64 v, int type) const = 0;
    virtual void assign(const IEng&) = 0;      // copy assignment
    virtual void move_assign(IEng&) = 0;       // move construction + assignment
    virtual void self_assign() = 0;
    virtual bool eq(const IEng&) const = 0;
    virtual bool ne(const IEng&) const = 0;
    virtual void seed(const SeedSpec&) = 0;
    virtual void save(std::ostream&) const = 0;
    virtual void load(std::istream&) = 0;
    virtual void wsave(std::wostream&) const = 0;
    virtual void wload(std::wistream&) = 0;
    // block fill through a pointer / a vector<uint64> iterator / a list iterator
    virtual void gen32(u32* first, u32* last) = 0;
    virtual void gen64(std::vector<u64>::iterator first, std::vector<u64>::iterator last) = 0;
    virtual void genonce(OnceIt first, OnceIt last) = 0;
    virtual void genlist(std::list<u32>::iterator first, std::list<u32>::iterator last) = 0;
};
typedef std::unique_ptr<IEng> EngP;

struct EngInfo {
    std::string name;
    std::function<IEng*(const SeedSpec&)> make;      // construction by any route
    std::size_t range_words;                          // words one seeding from a range needs (0 = unsupported)
    std::vector<u64> hints;                           // interesting positions: lags, block sizes, state lengths
    bool integral, is_signed; int digits;             // result type
    int seed_bits; bool seed_signed;                  // integer seed type
    bool log_discard;                                 // discard cost is logarithmic in n
    u64 cost;                                         // rough cost of one draw relative to an LCG step
    ModelFactory model;                               // reference model (may be empty)
    u64 period;                                       // full period if small enough to walk, else 0
    Val attain_min, attain_max;                       // bounds known to be attained over the period (period != 0)
    std::string family;
    bool word_engine;                                 // full 32-bit output words
    int word_bits;                                    // bits in an output word (for 01 engines: w)
    bool eq_is_state;                                 // operator== documented to compare states fully
    EngInfo() : range_words(0), integral(true), is_signed(false), digits(32), seed_bits(32), seed_signed(false), log_discard(false),
        cost(1), period(0), attain_min(0), attain_max(0), word_engine(false), word_bits(0), eq_is_state(true) {}
};

template<class E> struct has_range : std::true_type {};

template<class E, class SeedT> struct EngT : IEng {
    E e;
    typedef typename E::result_type R;
    EngT() : e() {}
    explicit EngT(const E& o) : e(o) {}
    Val draw() { R r = e(); return (Val)r; }
    void draws(Val* o, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { R r = e(); o[i] = (Val)r; } }
    Val mn() const { return (Val)((e.min)()); }
    Val mx() const { return (Val)((e.max)()); }
    void discard(u64 z) { e.discard(z); }
    IEng* clone() const { return new EngT(e); }
    IEng* clone_nc() { E t(e); EngT* r = new EngT(t); return r; }
    template<class F> static void typed(u64 v, int type, F f) {
        switch (type) {
        case 0: { short x = (short)v; f(x); break; }
        case 1: { const int x = (int)v; f(x); break; }
        case 2: { unsigned x = (unsigned)v; f(x); break; }
        case 3: { const long long x = (long long)v; f(x); break; }
        case 4: { unsigned long long x = v; f(x); break; }
        case 5: { unsigned char x = (unsigned char)v; f(x); break; }
        default: { double x = (double)(i64)v; f(x); break; }
        }
    }
    struct SeedF { E* e; template<class T> void operator()(T& x) const { e->seed(x); } };
    struct MakeF { EngT** r; template<class T> void operator()(T& x) const { *r = new EngT(E(x)); } };
    void seed_typed(u64 v, int type) { SeedF f = { &e }; typed(v, type, f); }
    IEng* make_typed(u64 v, int type) const { EngT* r = 0; MakeF f = { &r }; typed(v, type, f); return r; }
    void assign(const IEng& o) { e = static_cast<const EngT&>(o).e; }
    void move_assign(IEng& o) { E t(std::move(static_cast<EngT&>(o).e)); e = std::move(t); }
    void self_assign() { E* volatile p = &e; e = *p; }
    bool eq(const IEng& o) const { return e == static_cast<const EngT&>(o).e; }
    bool ne(const IEng& o) const { return e != static_cast<const EngT&>(o).e; }
    void save(std::ostream& os) const { os << e; }
    void load(std::istream& is) { is >> e; }
    void wsave(std::wostream& os) const { os << e; }
    void wload(std::wistream& is) { is >> e; }
    void gen32(u32* f, u32* l) { e.generate(f, l); }
    void gen64(std::vector<u64>::iterator f, std::vector<u64>::iterator l) { e.generate(f, l); }
    void genonce(OnceIt f, OnceIt l) { e.generate(f, l); }
    void genlist(std::list<u32>::iterator f, std::list<u32>::iterator l) { e.generate(f, l); }
    void seed(const SeedSpec& s) { route(s, this); }
    // When target is null a new engine is constructed by the same route, otherwise target is re-seeded.
    static EngT* route(const SeedSpec& s, EngT* t);
    template<class Arg> static EngT* one(EngT* t, Arg& a) { if (t) { t->e.seed(a); return 0; } return new EngT(E(a)); }
    template<class It> static EngT* two_(EngT* t, It& f, It l, std::true_type) { if (t) { t->e.seed(f, l); return 0; } return new EngT(E(f, l)); }
    template<class It> static EngT* two_(EngT*, It&, It, std::false_type) { pbt::fail("no range seeding"); return 0; }
    template<class It> static EngT* two(EngT* t, It& f, It l) { return two_(t, f, l, has_range<E>()); }
};


} // namespace vf

#include <boost/random/seed_seq.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <random>

namespace vf {
// an engine used as a seed sequence; wrapped where passing the engine itself would mean copying it
// engines that take an mt19937 for something else than a seed sequence: to copy it, or as their base
template<class E, class = void> struct TakesMt : std::is_same<E, boost::random::mt19937> {};
template<class E> struct TakesMt<E, typename std::conditional<true, void, typename E::base_type>::type> : TakesMt<typename E::base_type> {};
struct Mt19937Seq { typedef u32 result_type; boost::random::mt19937 g; explicit Mt19937Seq(u32 v) : g(v) {} template<class It> void generate(It f, It l) { g.generate(f, l); } };
template<class E, class SeedT>
EngT<E, SeedT>* EngT<E, SeedT>::route(const SeedSpec& s, EngT* t) {
    s.consumed = 0; s.requests.clear(); s.thrown = 0;
    switch (s.kind) {
    case S_DEFAULT: if (t) { t->e.seed(); return 0; } return new EngT();
    case S_VALUE: { const SeedT v = static_cast<SeedT>(s.value);
        if (s.value_type == 1) { const SeedT& r = v; return one(t, r); }
        SeedT nv = v; if (t) { t->e.seed(nv); return 0; } return new EngT(E(nv)); }
    case S_SEQ: { VSeq q; const std::vector<u32>& w = s.words;
        std::size_t pos = 0;
        q.fill = [&](std::vector<u32>& v) { if (s.stop && q.requests.size() == s.stop) { Fault f = { (int)s.stop }; throw f; } for (std::size_t i = 0; i < v.size(); ++i) v[i] = w.empty() ? 0 : w[pos++ % w.size()]; };
        EngT* r = one(t, q); s.requests = q.requests; return r; }
    case S_RANGE_INPUT: { WState st = { &s.words, 0, 0, s.stop }; WIt f(&st), l; EngT* r = 0;
        struct Upd { const SeedSpec& s; WState& st; ~Upd() { s.consumed = st.pos; } } u = { s, st };
        try { r = two(t, f, l); } catch (const std::invalid_argument&) { s.thrown = 1; }
        if (!s.thrown && f.st && f.st->pos != st.pos) pbt::fail("iterator not updated");
        return r; }
    case S_RANGE_PTR: { // exact-size heap copy so that a read past the end is caught by the address sanitizer
        std::unique_ptr<u32[]> h(new u32[s.words.size()]); std::copy(s.words.begin(), s.words.end(), h.get());
        const u32* f = h.get(); const u32* const l = h.get() + s.words.size(); EngT* r = 0; const u32* b = f;
        try { r = two<const u32*>(t, f, l); } catch (const std::invalid_argument&) { s.thrown = 1; }
        s.consumed = f - b; return r; }
    case S_RANGE_LIST: { std::list<u32> li(s.words.begin(), s.words.end());
        std::list<u32>::iterator f = li.begin(); EngT* r = 0;
        try { r = two<std::list<u32>::iterator>(t, f, li.end()); } catch (const std::invalid_argument&) { s.thrown = 1; }
        s.consumed = std::distance(li.begin(), f); return r; }
    case S_BOOST_SEQ: { boost::random::seed_seq q(s.words.begin(), s.words.end()); return one(t, q); }
    case S_STD_SEQ: { std::seed_seq q(s.words.begin(), s.words.end()); return one(t, q); }
    case S_ENGINE_SEQ: { typename std::conditional<TakesMt<E>::value, Mt19937Seq, boost::random::mt19937>::type q(static_cast<u32>(s.value)); return one(t, q); }
    default: pbt::fail("bad seed kind"); return 0;
    }
}

// Registration. SeedT is the integer seed type the engine's documentation names.
template<class E, class SeedT> EngInfo base_info(const char* name, const char* family) {
    EngInfo i; i.name = name; i.family = family;
    typedef typename E::result_type R;
    i.integral = std::numeric_limits<R>::is_integer; i.is_signed = i.integral && std::numeric_limits<R>::is_signed;
    i.digits = std::numeric_limits<R>::digits;
    i.seed_bits = (int)sizeof(SeedT) * 8; i.seed_signed = std::numeric_limits<SeedT>::is_signed;
    i.make = [](const SeedSpec& s) -> IEng* { return EngT<E, SeedT>::route(s, 0); };
    i.word_engine = i.integral && (Val)(E::min)() == 0 && (Val)(E::max)() == 4294967295.0L;
    return i;
}
typedef std::vector<EngInfo> Registry;
Registry& registry();
void reg_lcg(Registry&); void reg_lcg2(Registry&); void reg_cong(Registry&); void reg_ranlux(Registry&); void reg_lf2(Registry&); void reg_mt(Registry&); void reg_swc(Registry&); void reg_lf(Registry&);
void reg_misc(Registry&); void reg_adapt(Registry&); void reg_ibits(Registry&); void reg_mtsmall(Registry&);

inline u64 mask_bits(int b) { return b >= 64 ? ~0ull : ((u64)1 << b) - 1; }
// Random seed specification valid for the engine. `enough`: range seeding gets at least the words it needs.
SeedSpec gen_seed(Ctx& c, const EngInfo& e, bool enough = true);
std::string show(const SeedSpec& s);
Seeder to_seeder(const EngInfo& e, const SeedSpec& s);
EngP make_engine(const EngInfo& e, const SeedSpec& s);
// Brings a freshly made engine to a random reachable state. Returns a description.
EngP gen_engine(Ctx& c, const EngInfo& e, u64 cap = 3000);
void more_history(Ctx& c, const EngInfo& e, EngP& p, u64 cap);
const EngInfo& pick_engine(Ctx& c, std::function<bool(const EngInfo&)> f = std::function<bool(const EngInfo&)>());
// Compares the future of two engines (destructive).
void same_future(Ctx& c, const EngInfo& info, IEng& a, IEng& b, std::size_t n, const std::string& what);
std::size_t future_len(const EngInfo& e);
}
#endif
