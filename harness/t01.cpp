// T01: separate objects share no hidden state, and operations on constant objects may be made at the same time.
#include "eng.hpp"
#include "dist.hpp"
#include "qeng.hpp"
#include "t01.hpp"
#include <atomic>
#include <thread>
const char* pbt_rule = "a case counts as non-trivial when at least two objects were used in turn or by threads at the same time, every one of them with at least two operations; distinctness is over objects, their operations and the schedule";
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0"; }
namespace vf {
template<class T> static std::string text_of(const T& x, bool wide) { if (wide) { std::wostringstream o; x.write(o); std::wstring s = o.str(); return std::string(s.begin(), s.end()); } std::ostringstream o; x.write(o); return o.str(); }
static void put(Out& o, const std::string& s) { for (char ch : s) o.push_back(ch); }
static ld num(ld x) { return x != x ? -12345 : x; }

struct EngA : Actor {
    const EngInfo* info; SeedSpec first; struct Op { int k; u64 n; SeedSpec s; }; std::vector<Op> ops; EngP e;
    static void gen(Ctx& c, Actors& r, std::size_t same) {
        const EngInfo& f = pick_engine(c); for (std::size_t i = 0; i < same; ++i) {
            std::shared_ptr<EngA> a(new EngA); a->info = &f; a->name = f.name; a->first = gen_seed(c, f); std::size_t n = 2 + c.s.choose(6);
            u64 cap = f.cost > 20 ? 40 : 400; while (a->ops.size() < n) { Op o; o.k = (int)c.s.choose(9); o.n = 1 + c.s.count(f.hints, cap); if (o.k == 4) o.s = gen_seed(c, f); if (o.k == 8) o.n = f.log_discard ? 10000000 + c.s.choose(1000000) : o.n; a->ops.push_back(o); }
            r.push_back(a); }
    }
    std::size_t size() const override { return ops.size(); }
    void start(Out&) override { e = make_engine(*info, first); }
    void step(std::size_t i, Out& out) override {
        const Op& o = ops[i]; switch (o.k) {
        default: { std::vector<Val> v(o.n); e->draws(v.data(), v.size()); out.insert(out.end(), v.begin(), v.end()); break; }
        case 2: case 8: e->discard(o.n); break;
        case 3: { EngP t(e->clone()); out.push_back(t->eq(*e)); e = std::move(t); break; }
        case 4: e->seed(o.s); break;
        case 5: { std::stringstream s; e->save(s); put(out, s.str()); EngP t(make_engine(*info, first)); t->load(s); out.push_back(t->eq(*e)); e = std::move(t); break; }
        case 6: { EngP t(make_engine(*info, first)); out.push_back(t->ne(*e)); t->assign(*e); out.push_back(t->draw()); break; }
        case 7: { std::wstringstream s; e->wsave(s); e->wload(s); break; }
        }
        out.push_back(e->draw());
    }
};
struct DistA : Actor {
    const IDist* d; P p; int eng; Script script; struct Op { int k; std::size_t n; P p; }; std::vector<Op> ops; ScriptP s; u64 pos; ObjP x;
    static void gen(Ctx& c, Actors& r, std::size_t same) {
        const IDist& f = *dists()[c.s.choose(dists().size() - 1)]; int eng = (int)c.s.choose(f.nengines - 1); for (std::size_t i = 0; i < same; ++i) {
            std::shared_ptr<DistA> a(new DistA); a->d = &f; a->p = gen_params(c, f, false); a->eng = eng; a->script = *gen_script(c, f.maxoff(eng), 8); std::ostringstream nm; nm << f.name << a->p << " over a " << f.engine(eng); a->name = nm.str();
            std::size_t n = 2 + c.s.choose(6); while (a->ops.size() < n) { Op o; o.k = (int)c.s.choose(9); o.n = 1 + c.s.choose(6); if (o.k == 2 || o.k == 3) o.p = gen_params(c, f, false); a->ops.push_back(o); } r.push_back(a); }
    }
    std::size_t size() const override { return ops.size(); }
    void start(Out&) override { s.reset(new Script(script)); pos = 0; x.reset(d->make(p)); }
    void more(Out& out, const ld* v, std::size_t n) { for (std::size_t i = 0; i < n; ++i) out.push_back(num(v[i])); out.push_back((ld)pos); }
    void all(Out& out, const P& q) { for (ld t : q.v) out.push_back(num(t)); for (ld t : q.w) out.push_back(num(t)); for (ld t : q.b) out.push_back(num(t)); }
    void step(std::size_t i, Out& out) override {
        const Op& o = ops[i]; ld v[8]; switch (o.k) {
        default: x->draw(eng, s, pos, v, o.n); more(out, v, o.n); break;
        case 2: { ParamP q(d->make_param(o.p)); x->draw1(eng, s, pos, *q, v, o.n); more(out, v, o.n); break; }
        case 3: { ParamP q(d->make_param(o.p)); x->param(*q); break; }
        case 4: x->reset(); break;
        case 5: { ObjP t(x->clone()); out.push_back(t->eq(*x)); x = std::move(t); break; }
        case 6: { std::string t = text_of(*x, o.n % 2); put(out, t); std::istringstream is(t); ObjP y(d->make_default()); y->read(is); out.push_back(y->ne(*x)); y->assign(*x); x = std::move(y); break; }
        case 7: { ParamP q(x->param()); all(out, q->get()); put(out, text_of(*q, o.n % 2)); ParamP e(q->clone()); out.push_back(e->eq(*q)); all(out, x->get()); out.push_back(num(x->mn())); out.push_back(num(x->mx())); break; }
        }
        x->draw(eng, s, pos, v, 1); more(out, v, 1);
    }
};
struct QuasiA : Actor {
    const QCfg* f; std::size_t dim; struct Op { int k; u64 n; }; std::vector<Op> ops; QP q;
    static const QCfg& cfg(Ctx& c) { for (;;) { const QCfg& f = c.s.pick(qcfgs()); if (!f.table) return f; } }
    static void gen(Ctx& c, Actors& r, std::size_t same) {
        const QCfg& f = cfg(c); std::size_t shared = q_dim(c, f, 40); for (std::size_t i = 0; i < same; ++i) {
            std::shared_ptr<QuasiA> a(new QuasiA); a->f = &f; a->dim = c.s.coin() ? shared : q_dim(c, f, 40); a->name = f.name + " of dimension " + str(a->dim); std::size_t n = 2 + c.s.choose(6);
            while (a->ops.size() < n) { Op o; o.k = (int)c.s.choose(9); o.n = o.k == 4 || (o.k == 2 && f.kind != FAURE) ? c.s.choose(std::min<u64>(100, f.last / 2)) : 1 + c.s.choose(3 * a->dim); a->ops.push_back(o); } r.push_back(a); }
    }
    std::size_t size() const override { return ops.size(); }
    void start(Out&) override { q = f->make(dim); }
    void step(std::size_t i, Out& out) override {
        const Op& o = ops[i]; try { switch (o.k) {
        default: { std::vector<ld> v(o.n); q->block(v.data(), v.size(), o.k % 3); out.insert(out.end(), v.begin(), v.end()); break; }
        case 2: q->discard(o.n); break;
        case 3: q->seed(); break;
        case 4: q->seed(o.n); break;
        case 5: { QP t = q->clone(); out.push_back(t->eq(*q)); q = t; break; }
        case 6: if (f->stream) { std::string t = q->write(o.n % 2), rest; put(out, t); QP y = f->make(dim); out.push_back(y->read(t, o.n % 2, rest)); out.push_back(y->ne(*q)); q = y; } break;
        case 7: out.push_back((ld)q->dim()); out.push_back(q->u01((int)o.n % 3)); break;
        } out.push_back(q->call()); } catch (const std::range_error&) { out.push_back(-77); }
    }
};
// prepares the harness' own tables, so that the threads find them ready
static void ready() { static bool done = false; if (done) return; done = true; registry(); dists(); qcfgs(); Ctx c(pbt::Src(1)); }
static Actors gen_actors(Ctx& c, std::size_t least, std::size_t most) {
    Actors r; std::size_t n = least + c.s.choose(most - least); while (r.size() < n) { std::size_t same = c.s.coin() ? n - r.size() : 1; if (same > 3) same = 3; switch (c.s.choose(6)) { case 0: case 1: EngA::gen(c, r, same); break; case 2: case 3: DistA::gen(c, r, same); break; case 4: QuasiA::gen(c, r, same); break; default: gen_other(c, r, same); break; } }
    return r;
}
static std::string names(const Actors& a) { std::string s; for (const ActorP& x : a) s += (s.empty() ? "" : ", ") + x->name; return s; }
static std::string guarded(Actor& a, Out& out) { try { a.start(out); for (std::size_t i = 0; i < a.size(); ++i) a.step(i, out); return ""; } catch (const std::exception& e) { return e.what(); } }
static std::vector<Out> alone(Actors& as) { std::vector<Out> r(as.size()); for (std::size_t i = 0; i < as.size(); ++i) { as[i]->start(r[i]); for (std::size_t k = 0; k < as[i]->size(); ++k) as[i]->step(k, r[i]); } return r; }
static void judge(Ctx& c, const Actors& as, std::size_t i, const Out& got, const Out& want, const char* how) {
    std::size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    REQUIRE(c, got == want, as[i]->name << " (number " << i << " of " << names(as) << ") " << how << ": result " << k << " is " << (k < got.size() ? str(got[k]) : "missing") << ", alone it is " << (k < want.size() ? str(want[k]) : "missing"));
}
static void interleaved(Ctx& c) {
    ready(); Actors as = gen_actors(c, 2, 4); NOTE(c, names(as)); std::vector<Out> want = alone(as), got(as.size()); std::vector<std::size_t> at(as.size(), 0); std::vector<bool> started(as.size(), false); std::size_t left = 0; for (const ActorP& a : as) left += a->size() + 1;
    std::size_t i = 0; while (left) { if (!c.s.chance(1, 3)) i = c.s.choose(as.size() - 1); while (started[i] && at[i] == as[i]->size()) i = (i + 1) % as.size(); NOTE(c, i); if (!started[i]) { as[i]->start(got[i]); started[i] = true; } else as[i]->step(at[i]++, got[i]); --left; }
    for (std::size_t k = 0; k < as.size(); ++k) judge(c, as, k, got[k], want[k], "used in turn with the others");
    for (const ActorP& a : as) c.label(a->name.substr(0, a->name.find('('))); c.nontrivial();
}
static void run_threads(std::size_t n, const std::function<void(std::size_t)>& f) {
    std::atomic<std::size_t> here(0); std::vector<std::thread> t; for (std::size_t i = 0; i < n; ++i) t.emplace_back([&, i] { here.fetch_add(1, std::memory_order_relaxed); while (here.load(std::memory_order_relaxed) < n) std::this_thread::yield(); f(i); }); for (std::thread& x : t) x.join();
}
static void threads(Ctx& c) {
    ready(); Actors as = gen_actors(c, 2, 4); NOTE(c, names(as)); std::vector<Out> want, got(as.size()); std::vector<std::string> err(as.size()); bool before = c.s.coin(); if (before) want = alone(as);   // afterwards: what is set up at the first use is set up by the threads
    run_threads(as.size(), [&](std::size_t i) { err[i] = guarded(*as[i], got[i]); }); if (!before) want = alone(as);
    for (std::size_t k = 0; k < as.size(); ++k) { REQUIRE(c, err[k].empty(), as[k]->name << " in a thread: " << err[k]); judge(c, as, k, got[k], want[k], "while threads use the others"); }
    for (const ActorP& a : as) c.label(a->name.substr(0, a->name.find('('))); c.nontrivial();
}
// threads that only look at one object, and copy it
static void shared_engine(Ctx& c) {
    const EngInfo& f = pick_engine(c); EngP e = gen_engine(c, f, f.cost > 20 ? 60 : 300), other(e->clone()); if (c.s.coin()) other->draw(); std::size_t n = 2 + c.s.choose(2); NOTE(c, f.name << " looked at by " << n << " threads"); std::vector<std::vector<int> > plan(n); for (auto& p : plan) { p.resize(1 + c.s.choose(4)); for (int& k : p) k = (int)c.s.choose(4); }
    const IEng& shared = *e; auto work = [&](std::size_t i, Out& out) { EngP own(shared.clone()); for (int k : plan[i]) switch (k) {
        case 0: out.push_back(shared.eq(*own)); out.push_back(own->ne(shared)); break; case 1: { std::ostringstream o; shared.save(o); put(out, o.str()); break; } case 2: own->assign(shared); break;
        case 3: out.push_back(shared.mn()); out.push_back(shared.mx()); out.push_back(shared.eq(*other)); break; default: { std::wostringstream o; shared.wsave(o); out.push_back((ld)o.str().size()); out.push_back(own->draw()); } }
        for (int k = 0; k < 3; ++k) out.push_back(own->draw()); };
    std::vector<Out> got(n), want(n); std::vector<std::string> err(n); run_threads(n, [&](std::size_t i) { try { work(i, got[i]); } catch (const std::exception& x) { err[i] = x.what(); } }); for (std::size_t i = 0; i < n; ++i) { work(i, want[i]); REQUIRE(c, err[i].empty(), f.name << ": " << err[i]); REQUIRE(c, got[i] == want[i], f.name << ": thread " << i << " of " << n << " that look at one object finds something else than alone"); }
    c.label(f.name); c.nontrivial();
}
static void shared_dist(Ctx& c) {
    const IDist& d = *dists()[c.s.choose(dists().size() - 1)]; P p = gen_params(c, d, false); int eng = (int)c.s.choose(d.nengines - 1); ScriptP s = gen_script(c, d.maxoff(eng), 8); ObjP x(d.make(p)), other(d.make(gen_params(c, d, false))); ld v[8]; u64 pos = 0; x->draw(eng, s, pos, v, c.s.choose(5)); ParamP sp(x->param()); std::size_t n = 2 + c.s.choose(2); NOTE(c, d.name << p << " looked at by " << n << " threads");
    std::vector<std::vector<int> > plan(n); for (auto& q : plan) { q.resize(1 + c.s.choose(4)); for (int& k : q) k = (int)c.s.choose(6); } const IObj& shared = *x; const IParam& sparam = *sp;
    auto work = [&](std::size_t i, Out& out) { ScriptP t(new Script(*s)); u64 at = 0; ld r[4]; ObjP own(shared.clone()); for (int k : plan[i]) switch (k) {
        case 0: out.push_back(shared.eq(*own)); out.push_back(own->ne(shared)); out.push_back(shared.eq(*other)); break; case 1: put(out, text_of(shared, i % 2)); break; case 2: own->assign(shared); break;
        case 3: { ParamP q(shared.param()); out.push_back(q->eq(sparam)); for (ld y : q->get().v) out.push_back(num(y)); for (ld y : shared.get().w) out.push_back(num(y)); out.push_back(num(shared.mn())); out.push_back(num(shared.mx())); break; }
        case 4: own->draw1(eng, t, at, sparam, r, 2); for (int j = 0; j < 2; ++j) out.push_back(num(r[j])); break; case 5: own->param(sparam); own.reset(d.make_from(sparam)); break; default: put(out, text_of(sparam, i % 2)); own->draw(eng, t, at, r, 1); out.push_back(num(r[0])); }
        own->draw(eng, t, at, r, 3); for (int j = 0; j < 3; ++j) out.push_back(num(r[j])); out.push_back((ld)at); };
    std::vector<Out> got(n), want(n); std::vector<std::string> err(n); run_threads(n, [&](std::size_t i) { try { work(i, got[i]); } catch (const std::exception& y) { err[i] = y.what(); } }); for (std::size_t i = 0; i < n; ++i) { work(i, want[i]); REQUIRE(c, err[i].empty(), d.name << p << ": " << err[i]); REQUIRE(c, got[i] == want[i], d.name << p << ": thread " << i << " of " << n << " that look at one object finds something else than alone"); }
    c.label(d.name); c.nontrivial();
}
static void shared_quasi(Ctx& c) {
    const QCfg& f = QuasiA::cfg(c); std::size_t dim = q_dim(c, f, 40); QP q = f.make(dim), other = f.make(dim); try { for (u64 k = c.s.choose(3 * dim); k-- > 0;) q->call(); } catch (const std::range_error&) {} std::size_t n = 2 + c.s.choose(2); NOTE(c, f.name << " of dimension " << dim << " looked at by " << n << " threads"); std::vector<std::vector<int> > plan(n); for (auto& p : plan) { p.resize(1 + c.s.choose(4)); for (int& k : p) k = (int)c.s.choose(3); } const IQ& shared = *q;
    auto work = [&](std::size_t i, Out& out) { QP own = shared.clone(); for (int k : plan[i]) switch (k) { case 0: out.push_back(shared.eq(*own)); out.push_back(own->ne(shared)); out.push_back(shared.eq(*other)); break; case 1: if (f.stream) put(out, shared.write(i % 2)); break; case 2: own->assign(shared); break; default: out.push_back((ld)shared.dim()); out.push_back(own->call()); } for (std::size_t k = 0; k < dim + 1; ++k) out.push_back(own->call()); };
    std::vector<Out> got(n), want(n); std::vector<std::string> err(n); run_threads(n, [&](std::size_t i) { try { work(i, got[i]); } catch (const std::exception& y) { err[i] = y.what(); } }); for (std::size_t i = 0; i < n; ++i) { try { work(i, want[i]); } catch (const std::exception& y) { REQUIRE(c, err[i] == y.what(), f.name << ": " << err[i]); } REQUIRE(c, got[i] == want[i], f.name << " of dimension " << dim << ": thread " << i << " of " << n << " that look at one object finds something else than alone"); }
    c.label(f.name); c.nontrivial();
}
static void shared_const(Ctx& c) { ready(); switch (c.s.choose(5)) { case 0: case 1: shared_engine(c); break; case 2: case 3: shared_dist(c); break; case 4: shared_quasi(c); break; default: shared_other(c, run_threads); } }
// what depends on real threads need not show each time
template<void (*F)(Ctx&)> static void again(Ctx& c) { F(c); if (c.replayed) for (int i = 0; i < 30; ++i) { Ctx d((pbt::Src(c.s.made()))); F(d); } }
}
namespace pbt { void register_checks() {
    add("interleaved", 5000, 100000, vf::interleaved);
    add("threads", 5000, 100000, vf::again<vf::threads>);
    add("shared_const", 5000, 100000, vf::again<vf::shared_const>);
} }
