#include "eng.hpp"
namespace vf {
Registry& registry() {
    static Registry r;
    if (r.empty()) { reg_lcg(r); reg_lcg2(r); reg_cong(r); reg_mt(r); reg_mtsmall(r); reg_swc(r); reg_ranlux(r); reg_lf(r); reg_lf2(r); reg_misc(r); reg_adapt(r); reg_ibits(r); }
    return r;
}
const EngInfo& pick_engine(Ctx& c, std::function<bool(const EngInfo&)> f) {
    Registry& r = registry();
    static std::map<const void*, int> none; (void)none;
    std::vector<std::size_t> ok; for (std::size_t i = 0; i < r.size(); ++i) if (!f || f(r[i])) ok.push_back(i);
    // walk the engines with the case index so that every one gets its share, then remember the choice
    return r[ok[c.enumerate(ok.size())]];
}
std::string show(const SeedSpec& s) {
    static const char* const k[] = { "default", "value", "seq", "input-range", "pointer-range", "list-range", "seed_seq", "std::seed_seq", "engine-as-seq" };
    std::ostringstream o; o << k[s.kind];
    if (s.kind == S_VALUE || s.kind == S_ENGINE_SEQ) o << "(" << s.value << "/" << (i64)s.value << ")";
    if (s.kind >= S_SEQ && s.kind <= S_STD_SEQ) { o << "[" << s.words.size() << ":"; for (std::size_t i = 0; i < s.words.size() && i < 4; ++i) o << (i ? "," : "") << s.words[i]; o << "]"; }
    return o.str();
}
static void gen_words(Ctx& c, std::vector<u32>& w, std::size_t n) {
    // kinds: random, all zero, all ones, one set word, boundary values
    pbt::Prng p(c.s.choose(~0ull)); u64 kind = c.s.choose(5);
    w.resize(n);
    for (std::size_t i = 0; i < n; ++i) switch (kind) {
        case 0: case 4: w[i] = (u32)p.next(); break;
        case 1: w[i] = 0; break;
        case 2: w[i] = 0xffffffffu; break;
        case 3: w[i] = 0; break;
        default: { static const u32 b[] = { 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 2147483646, 2147483647, 0x00ffffff, 0xffff0000 }; w[i] = b[p.below(10)]; }
    }
    if (kind == 3 && n) w[p.below(n)] = (u32)p.next();
    if (kind == 4 && n) { std::size_t z = p.below(n + 1); for (std::size_t i = 0; i < z; ++i) w[i] = 0; }
}
SeedSpec gen_seed(Ctx& c, const EngInfo& e, bool enough) {
    SeedSpec s;
    for (;;) {
        s.kind = (SeedKind)c.s.choose(S_NKINDS - 1);
        if (c.s.chance(1, 4)) s.kind = S_VALUE;
        if (e.range_words == 0 && (s.kind == S_RANGE_INPUT || s.kind == S_RANGE_PTR || s.kind == S_RANGE_LIST)) s.kind = S_VALUE;
        break;
    }
    s.value_type = (int)c.s.choose(1);
    if (s.kind == S_VALUE) {
        u64 v = c.s.special(mask_bits(e.seed_bits));
        if (c.s.chance(1, 6)) { static const u64 b[] = { 2147483647u, 2147483646u, 2147483563u, 2147483562u, 2147483399u, 4294967291u, 714025u, 714024u, 1ull << 61, (1ull << 61) - 1, 1ull << 48, 331, 341, 5489, 19780503u }; v = c.s.pick(b) & mask_bits(e.seed_bits); }
        if (e.seed_signed && e.seed_bits < 64 && (v >> (e.seed_bits - 1))) v |= ~mask_bits(e.seed_bits);
        s.value = v;
    } else if (s.kind == S_ENGINE_SEQ) s.value = c.s.choose(0xffffffffu);
    else if (s.kind == S_SEQ) gen_words(c, s.words, c.s.chance(1, 3) ? c.s.range(1, 8) : e.range_words + 4);
    else if (s.kind == S_BOOST_SEQ || s.kind == S_STD_SEQ) gen_words(c, s.words, c.s.count({ 7, 39, 68, 623 }, 700));
    else if (s.kind != S_DEFAULT) {
        std::size_t n = e.range_words;
        if (!enough && n) { static const int d[] = { 0, 1, 2, 3 }; int k = c.s.pick(d); n = k == 0 ? n : k == 1 ? n - 1 : k == 2 ? 0 : c.s.choose(n - 1); }
        else n += c.s.choose(3);
        gen_words(c, s.words, n);
    }
    return s;
}
EngP make_engine(const EngInfo& e, const SeedSpec& s) { return EngP(e.make(s)); }
// Further history after seeding: draws, short skips, block fills, copies and save/restore.
void more_history(Ctx& c, const EngInfo& e, EngP& p, u64 cap) {
    u64 n = c.s.choose(4);
    for (u64 k = 0; k < n; ++k) {
        u64 op = c.s.choose(4), m = c.s.count(e.hints, std::min<u64>(cap, 400));
        NOTE(c, (op == 0 ? "draw " : op == 1 ? "discard " : op == 2 ? "fill " : op == 3 ? "copy " : "reload ") << m);
        if (op == 0) for (u64 i = 0; i < m; ++i) p->draw();
        else if (op == 1) p->discard(m);
        else if (op == 2) { std::vector<u32> v(m % 50 + 1); p->gen32(v.data(), v.data() + v.size()); }
        else if (op == 3) { EngP q(p->clone()); q->draw(); p->assign(*EngP(p->clone())); }
        else { std::stringstream ss; p->save(ss); EngP q(p->clone()); q->draw(); q->load(ss); p = std::move(q); }
    }
}
EngP gen_engine(Ctx& c, const EngInfo& e, u64 cap) {
    SeedSpec s = gen_seed(c, e);
    EngP p = make_engine(e, s);
    u64 n = c.s.count(e.hints, cap);
    for (u64 i = 0; i < n; ++i) p->draw();
    NOTE(c, e.name << " seeded by " << show(s) << " then " << n << " draws");
    if (c.s.chance(1, 3)) more_history(c, e, p, cap);
    return p;
}
std::size_t future_len(const EngInfo& e) { u64 m = 8; for (u64 h : e.hints) m = std::max(m, h); return (std::size_t)std::min<u64>(m + 40, 45000); }
void same_future(Ctx& c, const EngInfo& info, IEng& a, IEng& b, std::size_t n, const std::string& what) {
    (void)info;
    std::vector<Val> x(n), y(n); a.draws(x.data(), n); b.draws(y.data(), n);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(c, x[i] == y[i], what << ": future value " << i << " differs: " << x[i] << " vs " << y[i]);
}
// the seed as the reference models see it
Seeder to_seeder(const EngInfo& e, const SeedSpec& s) {
    Seeder q;
    switch (s.kind) {
    case S_DEFAULT: break;
    case S_VALUE: q.kind = Seeder::VALUE;
        if (e.seed_signed && (i64)s.value < 0) { q.negative = true; q.value = (u64)(0 - s.value); } else q.value = e.seed_bits < 64 ? s.value & mask_bits(e.seed_bits) : s.value;
        break;
    case S_SEQ: { std::shared_ptr<std::size_t> pos(new std::size_t(0)); std::vector<u32> w = s.words; q.kind = Seeder::SEQ;
        q.gen = [pos, w](std::size_t n) { std::vector<u32> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = w.empty() ? 0 : w[(*pos)++ % w.size()]; return v; }; break; }
    case S_BOOST_SEQ: case S_STD_SEQ: { std::vector<u32> w = s.words; q.kind = Seeder::SEQ;
        q.gen = [w](std::size_t n) { std::vector<u32> v(n); std::seed_seq z(w.begin(), w.end()); z.generate(v.begin(), v.end()); return v; }; break; }
    case S_ENGINE_SEQ: { std::shared_ptr<std::mt19937> g(new std::mt19937((u32)s.value)); q.kind = Seeder::SEQ;
        q.gen = [g](std::size_t n) { std::vector<u32> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = (*g)(); return v; }; break; }
    default: q.kind = Seeder::RANGE; q.words = s.words;
    }
    return q;
}
}
