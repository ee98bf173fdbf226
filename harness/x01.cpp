// X01: an exception thrown by an engine, a seed sequence, a seed range, a stream or the allocator passes through and leaves usable objects.
#include "eng.hpp"
#include "dist.hpp"
#include "qeng.hpp"
#include <boost/random/uniform_on_sphere.hpp>
#include <new>
#include <streambuf>
const char* pbt_rule = "a case counts as non-trivial when an exception was thrown into an operation of the library at a generated point and the objects were used afterwards; distinctness is over type, state, operation and point";
// every allocation can be made to fail
static long vf_live = 0, vf_countdown = -1;
static void* vf_get(std::size_t n) { if (vf_countdown >= 0 && vf_countdown-- == 0) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++vf_live; return p; }
void* operator new(std::size_t n) { return vf_get(n); }
void* operator new[](std::size_t n) { return vf_get(n); }
void operator delete(void* p) noexcept { if (p) { --vf_live; std::free(p); } }
void operator delete[](void* p) noexcept { if (p) { --vf_live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --vf_live; std::free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { --vf_live; std::free(p); } }
namespace vf {
void x01_adaptors(Ctx& c);
struct Drawn { std::vector<ld> v; u64 pos; bool operator==(const Drawn& o) const { return pos == o.pos && v == o.v; } };
static Drawn draw(IObj& x, int e, const ScriptP& s, std::size_t n) { Drawn r; r.pos = 0; r.v.resize(n); x.draw(e, s, r.pos, r.v.data(), n); for (ld& t : r.v) if (t != t) t = -12345; return r; }
static std::string name(const IDist& d, const P& p) { std::ostringstream o; o.precision(21); o << d.name << p; return o.str(); }
// the engine throws in the middle of a draw
static void engine_throws(Ctx& c) {
    const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true), o = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1); bool one = c.s.chance(1, 3); std::size_t n = 1 + c.s.choose(3), k = c.s.choose(c.s.coin() ? 2 : 30); ScriptP s = gen_script(c, d.maxoff(e), 12), t = gen_script(c, d.maxoff(e), 12);
    ObjP x(d.make(one ? o : p)), keep(x->clone()), fresh(d.make(one ? o : p)); ParamP pp(d.make_param(p)), pk(pp->clone()); std::string w = name(d, one ? o : p) + " over a " + d.engine(e) + ", which throws in call " + str(k); NOTE(c, w << (one ? " with the parameters " : "") << (one ? name(d, p) : ""));
    s->limit = k; ld v[64]; u64 pos = 0; bool thrown = false; std::size_t done = 0; try { for (; done < 64; ++done) { if (one) x->draw1(e, s, pos, *pp, v + done, 1); else x->draw(e, s, pos, v + done, 1); } } catch (const pbt::Failure& f) { thrown = true; REQUIRE(c, std::string(f.what()) == "no result after " + str(k) + " engine calls", w << ": another exception comes out: " << f.what()); }
    if (!thrown) { c.label("never asks the engine"); return; } REQUIRE(c, s->calls == k + 1, w << ": the engine was called again after it threw");
    std::string why; for (std::size_t i = 0; i < done; ++i) REQUIRE(c, possible(d, p, v[i], why), w << ": returned " << v[i] << ", " << why);
    REQUIRE(c, x->eq(*keep) && !x->ne(*keep) && x->get() == keep->get(), w << ": afterwards the distribution is another one, " << x->get()); REQUIRE(c, pp->eq(*pk) && pp->get() == pk->get(), w << ": afterwards the parameters passed are " << pp->get());
    Drawn a, b; if (c.s.coin()) { a = draw(*x, e, t, n); for (ld r : a.v) REQUIRE(c, r == -12345 || possible(d, one ? o : p, r, why), w << ": afterwards returned " << r << ", " << why); }
    x->reset(); fresh->reset(); a = draw(*x, e, t, n); b = draw(*fresh, e, t, n); REQUIRE(c, a == b, w << ": after reset the values are not those of a new one"); c.label(d.name); c.nontrivial();
}
// the seeds throw
static void seed_throws(Ctx& c) {
    const EngInfo& e = pick_engine(c); SeedSpec q = gen_seed(c, e); bool range = e.range_words && c.s.coin(); q.kind = range ? S_RANGE_INPUT : S_SEQ; if (q.words.empty()) q.words.assign(1, (u32)c.s.choose(~0u)); if (range) while (q.words.size() < e.range_words + 2) q.words.push_back((u32)c.s.special(0xffffffffu)); std::size_t most = range ? e.range_words : 3; q.stop = 1 + c.s.choose((c.s.coin() && most > 3 ? 3 : most) - 1);
    EngP x = gen_engine(c, e, 200), old(x->clone()); std::string w = e.name + " seeded by a " + (range ? "range whose element " : "sequence whose request ") + str(q.stop) + " throws"; NOTE(c, w); bool construct = c.s.coin(), thrown = false;
    try { if (construct) make_engine(e, q); else x->seed(q); } catch (const Fault& f) { thrown = true; REQUIRE(c, f.number == (int)q.stop, w << ": another exception comes out"); } if (!thrown) { c.label("not read that far"); return; } c.label(construct ? "constructor" : "seed");
    if (construct) REQUIRE(c, x->eq(*old), w << ": constructing one changes another");
    EngP y(x->clone()); REQUIRE(c, y->eq(*x) && !y->ne(*x), w << ": afterwards a copy is not equal"); Val lo = x->mn(), hi = x->mx(); std::size_t n = c.s.chance(1, 4) ? std::min<std::size_t>(future_len(e), 400) : 5; for (std::size_t i = 0; i < n; ++i) { Val v = x->draw(); REQUIRE(c, v >= lo && (e.integral ? v <= hi : v < hi), w << ": afterwards value " << i << " is " << v << ", outside [" << lo << ", " << hi << (e.integral ? "]" : ")")); }
    SeedSpec g; do g = gen_seed(c, e); while (g.kind == S_ENGINE_SEQ); EngP f = make_engine(e, g); if (c.s.coin()) x->seed(g); else x->assign(*f); REQUIRE(c, x->eq(*f) && !f->ne(*x), w << ": afterwards seeding or assigning does not make it equal to a new one"); same_future(c, e, *x, *f, std::min<std::size_t>(future_len(e), 200), w + ", seeded again"); c.label(e.family); c.nontrivial();
}
// a stream that takes a number of characters only
struct Full : std::streambuf { std::size_t left; explicit Full(std::size_t n) : left(n) {} int_type overflow(int_type ch) override { if (!left) return traits_type::eof(); --left; return traits_type::not_eof(ch); } };
static std::string cut(Ctx& c, const std::string& t) { std::vector<std::size_t> at; for (std::size_t i = 0; i < t.size(); ++i) if (!std::isspace((unsigned char)t[i]) && (i == 0 || std::isspace((unsigned char)t[i - 1]))) at.push_back(i); return at.empty() ? "" : t.substr(0, at[c.s.choose(at.size() - 1)]) + (c.s.coin() ? "x" : ""); }
static void stream_throws(Ctx& c) {
    bool exc = c.s.chance(3, 4); if (c.s.coin()) {
        const EngInfo& e = pick_engine(c); EngP x = gen_engine(c, e, 200), keep(x->clone()); std::ostringstream o; x->save(o); std::string t = o.str(); std::size_t k = c.s.choose(t.size() - 1); Full b(k); std::ostream os(&b); if (exc) os.exceptions(std::ios_base::badbit | std::ios_base::failbit); std::string w = e.name + " written to a stream that takes " + str(k) + " of " + str(t.size()) + " characters"; NOTE(c, w); bool thrown = false; try { x->save(os); } catch (const std::ios_base::failure&) { thrown = true; }
        REQUIRE(c, thrown == exc && !os.good(), w << (exc ? ": no exception comes out" : ": the failure is not reported")); REQUIRE(c, x->eq(*keep), w << ": the engine changed"); std::string d = cut(c, t); std::istringstream is(d); if (exc) is.exceptions(std::ios_base::badbit | std::ios_base::failbit); EngP y = gen_engine(c, e, 50); thrown = false; try { y->load(is); } catch (const std::ios_base::failure&) { thrown = true; } w = e.name + " read from \"" + d.substr(0, 60) + "\"";
        REQUIRE(c, thrown == exc && is.fail(), w << (exc ? ": no exception comes out" : ": the failure is not reported")); Val lo = y->mn(), hi = y->mx(); for (int i = 0; i < 5; ++i) { Val v = y->draw(); REQUIRE(c, v >= lo && (e.integral ? v <= hi : v < hi), w << ": afterwards value " << i << " is " << v); } std::istringstream good(t); y->load(good); REQUIRE(c, !good.fail() && y->eq(*keep), w << ": afterwards the undamaged text is not taken"); c.label(e.family);
    } else {
        const IDist& d = *dists()[c.s.choose(dists().size() - 1)]; P p = gen_params(c, d, true), q = gen_params(c, d, true); ObjP x(d.make(p)), keep(x->clone()), y(d.make(q)), old(y->clone()); std::ostringstream o; o.precision(d.io_digits); x->write(o); std::string t = o.str(); if (t.empty()) return; std::size_t k = c.s.choose(t.size() - 1); Full b(k); std::ostream os(&b); os.precision(d.io_digits); if (exc) os.exceptions(std::ios_base::badbit | std::ios_base::failbit); std::string w = name(d, p) + " written to a stream that takes " + str(k) + " of " + str(t.size()) + " characters"; NOTE(c, w);
        bool thrown = false; try { x->write(os); } catch (const std::ios_base::failure&) { thrown = true; } REQUIRE(c, thrown == exc && !os.good(), w << (exc ? ": no exception comes out" : ": the failure is not reported")); REQUIRE(c, x->eq(*keep) && x->get() == keep->get(), w << ": the distribution changed");
        std::string dm = cut(c, t); std::istringstream is(dm); if (exc) is.exceptions(std::ios_base::badbit | std::ios_base::failbit); thrown = false; try { y->read(is); } catch (const std::ios_base::failure&) { thrown = true; } w = name(d, q) + " read from \"" + dm + "\""; REQUIRE(c, thrown == exc && is.fail(), w << (exc ? ": no exception comes out" : ": the failure is not reported")); REQUIRE(c, y->eq(*old) && y->get() == old->get(), w << ": afterwards it is " << y->get()); int e = 0; ScriptP s = gen_script(c, d.maxoff(e), 10); REQUIRE(c, draw(*y, e, s, 3) == draw(*old, e, s, 3), w << ": afterwards it returns other values"); c.label(d.name);
    }
    c.nontrivial();
}
// the allocator throws: at every point of an operation in turn
struct Arm { explicit Arm(long k) { vf_countdown = k; } ~Arm() { vf_countdown = -1; } };
// true: the operation got through
static bool armed(long k, const std::function<void()>& f) { try { Arm a(k); f(); return true; } catch (const std::bad_alloc&) { return false; } }
static void memory_dist(Ctx& c) {
    std::vector<const IDist*> all; for (const IDist* d : dists()) if (d->kind == HYPEREXP || d->kind == PCONST || d->kind == PLINEAR || d->kind == DISCRETE) all.push_back(d); const IDist& d = *(c.s.chance(1, 6) ? c.s.pick(dists()) : c.s.pick(all)); P p = gen_params(c, d, true), o = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1), op = (int)c.s.choose(8), route = (int)c.s.choose(d.routes() - 1); ScriptP s = gen_script(c, d.maxoff(e), 10); std::string what; static const char* const OP[] = { "constructing", "copying", "assigning", "setting the parameters", "returning the parameters", "copying the parameters", "reading", "one-shot drawing", "constructing from parameters" }; std::string w = name(d, p) + ", other " + name(d, o) + ", allocator throws in " + OP[op]; NOTE(c, w);
    std::size_t failures = 0; for (int round = 0; round < 2; ++round) { long before = vf_live; { ObjP x(d.make(p, route)), y(d.make(o)), xk(x->clone()), z; ParamP pp(x->param()), q, pk(pp->clone()); std::ostringstream os; os.precision(d.io_digits); x->write(os); std::string text = os.str(); ld v[4]; u64 pos = 0; Drawn want = draw(*xk, e, s, 3);
        for (long k = 0; k < 200; ++k) { bool bad = false; pos = 0; bool ok; if (op == 6) { std::istringstream is(text); ok = armed(k, [&]() { y->read(is); }) && !is.bad(); } else ok = armed(k, [&]() { switch (op) {
            case 0: z.reset(d.make(p, route)); break; case 1: z.reset(x->clone()); break; case 2: y->assign(*x); break; case 3: y->param(*pp); break; case 4: q.reset(x->param()); break; case 5: q.reset(pp->clone()); break; case 7: y->draw1(e, s, pos, *pp, v, 2); break; default: z.reset(d.make_from(*pp)); } });
            if (ok) break; ++failures; (void)bad;
            REQUIRE(c, x->eq(*xk) && x->get() == xk->get() && pp->eq(*pk), w << " at allocation " << k << ": changed what it reads from"); if (op < 2 || op == 8) REQUIRE(c, !z, w << " at allocation " << k << ": made something");
            if (op == 7) REQUIRE(c, y->get() == ObjP(d.make(o))->get(), w << " at allocation " << k << ": changed the distribution");
            // a target can be assigned
            ObjP t(d.make(o)); y->assign(*t); REQUIRE(c, y->eq(*t) && y->get() == t->get(), w << " at allocation " << k << ": afterwards assigning does not make it equal"); y->assign(*x); REQUIRE(c, y->eq(*x), w << " at allocation " << k << ": afterwards assigning does not make it equal"); REQUIRE(c, draw(*y, e, s, 3) == want, w << " at allocation " << k << ": afterwards the assigned one returns other values"); y->assign(*t); }
        } if (round) REQUIRE(c, vf_live == before, w << ": " << vf_live - before << " blocks are not given back"); }   // the first round sets up what is set up once
    c.label(d.name); c.label(OP[op]); c.nontrivial(failures > 0);
}
static void memory_engine(Ctx& c) {
    const EngInfo& e = pick_engine(c); SeedSpec g, g2 = gen_seed(c, e); do g = gen_seed(c, e); while (g.kind == S_ENGINE_SEQ); int op = (int)c.s.choose(3); if (op == 0 && (!e.log_discard || e.cost > 20)) op = 1; u64 z = 10000000 + c.s.choose(1000000); static const char* const OP[] = { "a long jump", "copying", "seeding", "writing and reading" }; std::string w = e.name + ", allocator throws in " + OP[op]; NOTE(c, w); std::size_t failures = 0;
    for (int round = 0; round < 2; ++round) { long before = vf_live; { EngP x = make_engine(e, g), k0(x->clone()), t; std::ostringstream os; x->save(os); std::string text = os.str(); std::istringstream is; std::ostringstream os2;
        for (long k = 0, step = 1; k < 400; k += step, step += op == 0 && k > 8) { bool ok = armed(k, [&]() { switch (op) { case 0: x->discard(z); break; case 1: t.reset(x->clone()); break; case 2: x->seed(g2); break; default: os2.str(""); x->save(os2); if (os2.bad()) { os2.clear(); throw std::bad_alloc(); } is.clear(); is.str(text); x->load(is); if (is.bad()) throw std::bad_alloc(); } }); if (ok) break; ++failures;
            if (op == 1) REQUIRE(c, x->eq(*k0), w << ": changed the engine"); Val lo = x->mn(), hi = x->mx(); for (int i = 0; i < 3; ++i) { Val v = x->draw(); REQUIRE(c, v >= lo && (e.integral ? v <= hi : v < hi), w << " at allocation " << k << ": afterwards value " << i << " is " << v); }
            if (k % 2) x->assign(*k0); else x->seed(g); REQUIRE(c, x->eq(*k0) && x->draw() == EngP(k0->clone())->draw(), w << " at allocation " << k << ": afterwards seeding or assigning does not make it equal"); x->assign(*k0); }
        } if (round) REQUIRE(c, vf_live == before, w << ": " << vf_live - before << " blocks are not given back"); }
    c.label(e.family); c.label(OP[op]); c.nontrivial(failures > 0);
}
static void memory_quasi(Ctx& c) {
    const QCfg* pf; do pf = &c.s.pick(qcfgs()); while (pf->table || pf->last < 64); const QCfg& f = *pf; std::size_t dim = q_dim(c, f, 40), dim2 = q_dim(c, f, 40); u64 cap = std::min<u64>((f.last - 16) / 2, 100000), n0 = c.s.choose(c.s.coin() ? std::min<u64>(cap, 3) : cap), n1 = c.s.choose(cap), n2 = c.s.choose(cap), dd = c.s.choose(std::min<u64>(cap, 1000)); int op = (int)c.s.choose(6); std::size_t take = 1 + c.s.choose(2 * dim), first = c.s.choose(dim); static const char* const OP[] = { "constructing", "copying", "assigning", "seeding", "discarding", "drawing", "reading" }; std::string w = f.name + " of dimension " + str(dim) + " at vector " + str(n0) + ", allocator throws in " + OP[op]; NOTE(c, w << ", then at vectors " << n1 << " and " << n2); std::size_t failures = 0;
    for (int round = 0; round < 2; ++round) { long before = vf_live; { QP x = f.make(dim), src = f.make(dim2), fresh = f.make(dim), z; fresh->seed(n2); std::string text; { QP t = f.make(dim); t->seed(n1); if (f.stream) text = t->write(false); if (c.s.made().size() % 2) { QP o = f.make(dim2); o->seed(n1); if (f.stream) text = o->write(false); } } std::string rest; std::vector<ld> buf(take);
        for (long k = 0; k < 60; ++k) { x = f.make(dim); x->seed(n0); for (std::size_t i = 0; i < first; ++i) x->call(); QP keep = x->clone(); bool ok = armed(k, [&]() { switch (op) { case 0: z = f.make(dim); break; case 1: z = x->clone(); break; case 2: x->assign(*src); break; case 3: x->seed(n1); break; case 4: x->discard(dd * dim + 1); break; case 5: x->block(buf.data(), take, 0); break; default: if (f.stream && !x->read(text, false, rest)) throw std::bad_alloc(); } }); if (ok) break; ++failures;
            if (op < 2) REQUIRE(c, !z && x->eq(*keep), w << " at allocation " << k << ": made something, or changed the engine");
            if (op == 2) { x->assign(*fresh); REQUIRE(c, x->dim() == dim && x->eq(*fresh), w << " at allocation " << k << ": afterwards assigning does not make it equal"); } else { if (op == 5) try { x->call(); } catch (const std::range_error&) {} x->seed(n2); REQUIRE(c, x->eq(*fresh), w << " at allocation " << k << ": afterwards seeding does not make it equal to a new one at vector " << n2); }
            QP r = fresh->clone(); for (std::size_t i = 0; i < 2 * dim + 1; ++i) { ld a = x->call(), b = r->call(); REQUIRE(c, a == b, w << " at allocation " << k << ": afterwards, seeded to vector " << n2 << ", coordinate " << i << " is " << a << ", not " << b); } }
        } if (round) REQUIRE(c, vf_live == before, w << ": " << vf_live - before << " blocks are not given back"); }
    c.label(f.name); c.label(OP[op]); c.nontrivial(failures > 0);
}
static void memory(Ctx& c) { switch (c.s.choose(5)) { case 0: case 1: case 2: memory_dist(c); break; case 3: memory_engine(c); break; default: memory_quasi(c); } }
}
namespace pbt { void register_checks() {
    add("engine_throws", 60000, 1000000, vf::engine_throws);
    add("adaptors", 60000, 500000, vf::x01_adaptors);
    add("seed_throws", 40000, 400000, vf::seed_throws);
    add("stream_throws", 20000, 400000, vf::stream_throws);
    add("memory", 4500, 120000, vf::memory);
} }
