// E04: equality, copies, re-seeding.
#include "eng.hpp"
#include <unordered_map>
const char* pbt_rule = "a case counts as non-trivial when the two engines compared were brought to their states by different histories (different draws, a copy that was driven on, or a re-seeding of a used engine); distinctness is over engine, seeds, histories and operations";
namespace vf {
static std::size_t flen(Ctx& c, const EngInfo& e) { return c.s.chance(1, 6) ? future_len(e) : std::min<std::size_t>(future_len(e), 600); }
static void check_pair(Ctx& c, const EngInfo& e, IEng& a, IEng& b, const std::string& what) {
    bool q = a.eq(b);
    REQUIRE(c, q == b.eq(a), e.name << ": == is not symmetric (" << what << ")");
    REQUIRE(c, a.ne(b) == !q && b.ne(a) == !q, e.name << ": != is not the negation of == (" << what << ")");
    REQUIRE(c, a.eq(a) && !a.ne(a), e.name << ": == is not reflexive");
    std::size_t n = flen(c, e); EngP x(a.clone()), y(b.clone());
    std::vector<Val> u(n), v(n); x->draws(u.data(), n); y->draws(v.data(), n);
    bool same = u == v;
    if (q) REQUIRE(c, same, e.name << ": engines compare equal but their futures differ (" << what << ")");
    if (!same) REQUIRE(c, !q, e.name << ": engines with different futures compare equal (" << what << ")");
    ++c.evals;
}
static void copies(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    EngP a = gen_engine(c, e), ref(a->clone()), b;
    int how = (int)c.s.choose(3);
    if (how == 0) b.reset(a->clone());
    else { b = gen_engine(c, e, 300); if (how == 1) b->assign(*a); else if (how == 2) { EngP t(a->clone()); b->move_assign(*t); } else { b->assign(*a); b->self_assign(); } }
    NOTE(c, "copied by " << (how == 0 ? "construction" : how == 1 ? "assignment" : how == 2 ? "move" : "assignment and self-assignment"));
    REQUIRE(c, b->eq(*a) && a->eq(*ref), e.name << ": copy not equal to its source");
    u64 n = c.s.count(e.hints, 500) + 1;
    int drive = (int)c.s.choose(2);
    for (u64 i = 0; i < n; ++i) if (drive == 0) a->draw();
    if (drive == 1) a->discard(n);
    if (drive == 2) a->seed(gen_seed(c, e));
    REQUIRE(c, b->eq(*ref), e.name << ": driving the source changed its copy");
    EngP r2(ref->clone());
    same_future(c, e, *b, *ref, flen(c, e), e.name + ": copy against source");
    for (u64 i = 0; i < 3; ++i) r2->draw();
    c.label(e.family); c.nontrivial();
}
static void pairs(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    EngP a = gen_engine(c, e, 1000), b;
    std::string what;
    switch (c.s.choose(3)) {
    case 0: b = gen_engine(c, e, 1000); what = "independent histories"; break;
    case 1: { b.reset(a->clone()); u64 n = c.s.count(e.hints, 800); for (u64 i = 0; i < n; ++i) b->draw(); what = "one " + str(n) + " draws ahead"; break; }
    case 2: { b.reset(a->clone()); u64 n = c.s.count(e.hints, 800); for (u64 i = 0; i < n; ++i) a->draw(); b->discard(n); what = "same position by calls and by discard"; REQUIRE(c, a->eq(*b), e.name << ": engines at the same position compare unequal"); break; }
    default: { // a nearby seed
        SeedSpec s = gen_seed(c, e), t = s; if (s.kind == S_VALUE) t.value ^= 1; else if (!t.words.empty()) t.words[c.s.choose(t.words.size() - 1)] ^= (u32)1 << c.s.choose(31);
        a = make_engine(e, s); b = make_engine(e, t); what = "seeds differing in one bit"; } }
    NOTE(c, e.name << ": " << what);
    check_pair(c, e, *a, *b, what);
    c.label(e.family); c.nontrivial();
}
static void reseed(Ctx& c) {
    const EngInfo& e = pick_engine(c);
    EngP a = gen_engine(c, e, 1500), d = gen_engine(c, e, 300); SeedSpec s = gen_seed(c, e); EngP f = make_engine(e, s);
    NOTE(c, "re-seeded by " << show(s));
    a->seed(s); d->seed(s);
    REQUIRE(c, a->eq(*d) && a->eq(*f), e.name << ": re-seeding by " << show(s) << " depends on what happened before");
    EngP a2(a->clone());
    same_future(c, e, *a, *d, flen(c, e), e.name + ": two used engines re-seeded alike");
    same_future(c, e, *a2, *f, flen(c, e), e.name + ": a used engine re-seeded against a fresh one");
    c.label(e.family); c.nontrivial();
}
// Orbits of small carry generators: two positions whose last r outputs agree differ only in the carry.
static void carry(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.name == "swc_5_3_4" || i.name == "swc_8_1_3" || i.name == "swc_4_1_2" || i.name == "swc01_4_1_2"; });
    SeedSpec s; s.kind = S_VALUE; s.value = c.s.choose(0xffffffffu); EngP a = make_engine(e, s);
    std::size_t r = (std::size_t)e.hints[0]; std::vector<Val> v; u64 N = c.thorough ? 60000 : 12000; v.resize(N); EngP run(a->clone()); run->draws(v.data(), N);
    std::map<std::vector<Val>, std::size_t> seen; int found = 0;
    for (std::size_t i = r; i + 1 < N && found < 3; ++i) {
        std::vector<Val> k(v.begin() + (i - r), v.begin() + i);
        auto it = seen.find(k); if (it == seen.end()) { seen[k] = i; continue; }
        if (v[it->second] != v[i]) {
            ++found; EngP p(a->clone()), q(a->clone()); p->discard(it->second); q->discard(i);
            NOTE(c, e.name << " seed " << s.value << " positions " << it->second << " and " << i << " share their last " << r << " outputs");
            check_pair(c, e, *p, *q, "seed " + str(s.value) + ", positions " + str(it->second) + " and " + str(i) + " with equal last outputs and different carry");
            c.nontrivial();
        }
    }
}
}
namespace pbt { void register_checks() {
    add("copies", 20000, 150000, vf::copies);
    add("pairs", 24000, 200000, vf::pairs);
    add("reseed", 16000, 120000, vf::reseed);
    add("carry", 300, 3000, vf::carry);
} }
