// Q02: positions of quasi-random engines.
#include "qeng.hpp"
const char* pbt_rule = "a case counts as non-trivial when, after at least two operations that move, copy, restore or fail, every engine of the case was found at the position the model computes; distinctness is over engine type, tables, dimensions and history";
namespace vf {
static std::string sh(u128 v) { return str(v); }
struct Slot { QP e; std::size_t dim; u128 L; };
struct Q02 {
    Ctx& c; const QCfg& f; std::vector<Slot> p; std::map<std::size_t, std::shared_ptr<QModel> > models; std::ostringstream hist; bool moved;
    Q02(Ctx& c_, const QCfg& f_) : c(c_), f(f_), moved(false) {}
    QModel& model(std::size_t d) { std::shared_ptr<QModel>& m = models[d]; if (!m) m.reset(new QModel(f, d)); return *m; }
    u128 end(const Slot& s) const { return (u128)s.dim * ((u128)f.last + 1); }
    std::string at(const Slot& s) const { return show(f, s.dim) + " at coordinate " + sh(s.L % s.dim) + " of vector " + sh(s.L / s.dim); }
    void value(Slot& s, ld v, const char* how) { u64 n = (u64)(s.L / s.dim); std::size_t d = (std::size_t)(s.L % s.dim); ld tol, x = model(s.dim).at(n, d, tol); REQUIRE(c, std::fabs(v - x) <= tol, at(s) << ": " << how << " returns " << v << ", not " << x); ++s.L; }
    template<class F> void refused(Slot& s, const char* what, F fn) {
        std::string w = at(s); int got = 0; try { fn(); } catch (const std::range_error&) { got = 1; } catch (const std::exception& e) { REQUIRE(c, false, w << ": " << what << " throws something else than std::range_error: " << e.what()); }
        REQUIRE(c, got == 1, w << ": " << what << " is not refused");
    }
    void draw(Slot& s, u64 k) { for (; k && s.L < end(s); --k) value(s, s.e->call(), "operator()"); if (k && !f.sgn) { refused(s, "a call past the end", [&] { s.e->call(); }); if (c.s.coin()) refused(s, "a second call past the end", [&] { s.e->call(); }); } }
    void same(const char* after) {
        for (std::size_t i = 0; i < p.size(); ++i) { REQUIRE(c, p[i].e->dim() == p[i].dim, at(p[i]) << ": dimension() is " << p[i].e->dim() << " after " << after); for (std::size_t j = 0; j < p.size(); ++j) { bool x = p[i].dim == p[j].dim && p[i].L == p[j].L; REQUIRE(c, p[i].e->eq(*p[j].e) == x && p[i].e->ne(*p[j].e) == !x, "after " << after << ", " << at(p[i]) << " and " << at(p[j]) << " compare equal: " << p[i].e->eq(*p[j].e) << ", unequal: " << p[i].e->ne(*p[j].e)); } }
    }
    std::size_t dim() { std::size_t m = f.maxdim(); return std::min<std::size_t>(c.s.chance(1, 60) ? m - c.s.choose(std::min<std::size_t>(m, 200) - 1) : 1 + c.s.choose(c.s.chance(1, 3) ? 15 : 3), m); }
    void fresh(Slot& s) { s.dim = dim(); s.e = f.make(s.dim); s.L = 0; }
    u64 amount(const Slot& s) { u128 left = end(s) - s.L; u64 l = left > ~0ull ? ~0ull : (u64)left; switch (c.s.choose(7)) { case 0: return c.s.choose(2 * s.dim + 2); case 1: return s.dim * c.s.choose(20); case 2: return s.dim * c.s.choose(20) + c.s.choose(s.dim); case 3: return c.s.special(); case 4: return l - std::min<u64>(l, c.s.choose(2 * s.dim)); case 5: return l == ~0ull ? l : l + 1 + c.s.choose(2 * s.dim); case 6: return (s.dim - (u64)(s.L % s.dim)); default: { u64 k = c.s.choose(40); return std::min<u64>(l, (u64)s.dim << std::min<u64>(k, 50)); } } }
    void step() {
        Slot& s = p[c.s.choose(p.size() - 1)]; Slot& t = p[c.s.choose(p.size() - 1)]; std::string what; bool heavy = s.dim > 50;
        switch (c.s.choose(11)) {
        case 0: { u64 k = c.s.choose(heavy ? 3 : 12); if (f.sgn && end(s) - s.L < k) break; what = "drawing " + str(k); draw(s, k); break; }
        case 1: { u64 k = c.s.choose(heavy ? 3 : 3 * s.dim); if (end(s) - s.L < k) k = (u64)(end(s) - s.L); what = "filling " + str(k); std::vector<ld> v(k); s.e->block(v.data(), k, 1 + (int)c.s.choose(1)); for (ld x : v) value(s, x, "generate"); break; }
        case 2: case 3: case 4: { u64 z = amount(s); what = "discarding " + str(z); moved = true; if (s.L + z > end(s)) { refused(s, (what + " coordinates (past the end)").c_str(), [&] { s.e->discard(z); }); } else { s.e->discard(z); s.L += z; } break; }
        case 5: { u64 n = q_vector(c, f, s.dim); moved = true; if (f.seedmax > f.last && c.s.chance(1, 4)) { n = f.last + 1 + (f.seedmax - f.last > 1 ? c.s.choose(c.s.coin() ? std::min<u64>(3, f.seedmax - f.last - 1) : f.seedmax - f.last - 1) : 0); what = "refused seed " + str(n); refused(s, (what).c_str(), [&] { s.e->seed(n); }); } else { what = "seed " + str(n); s.e->seed(n); s.L = (u128)n * s.dim; } break; }
        case 6: { u64 l = f.last - std::min<u64>(f.last, c.s.choose(2)); if (f.sgn) l /= 2; what = "seed to vector " + str(l) + " near the end"; moved = true; s.e->seed(l); s.L = (u128)l * s.dim; break; }
        case 7: if (c.s.coin()) { what = "seed()"; s.e->seed(); s.L = 0; } else { what = "a new engine"; fresh(s); } break;
        case 8: if (&s == &t) break; moved = true; if (c.s.coin()) { what = "copy"; s.e = t.e->clone(); } else { what = "assignment"; s.e->assign(*t.e); } s.dim = t.dim; s.L = t.L; break;
        case 9: if (!f.stream) break; { moved = true; what = "saving and restoring"; bool wide = c.s.coin(); std::string x = t.e->write(wide), rest, tail = c.s.coin() ? "" : " 77 x"; REQUIRE(c, s.e->read(x + tail, wide, rest), at(t) << ": its text \"" << x << "\" cannot be read"); REQUIRE(c, rest == tail, at(t) << ": after its text \"" << rest << "\" is left of \"" << tail << "\""); s.dim = t.dim; s.L = t.L; break; }
        case 10: if (!f.stream) break; { // a text that is no state
            bool wide = c.s.coin(); std::string x, rest; int expect; std::size_t d = dim(); std::string D = str(d);
            switch (c.s.choose(7)) { case 0: x = ""; expect = 0; break; case 1: x = D; expect = 0; break; case 2: x = D + " 1"; expect = 0; break; case 3: x = "x"; expect = 0; break; case 4: x = D + " 0 y"; expect = 0; break; case 5: x = "0 0 0"; expect = 2; break; case 6: x = str(f.kind == FAURE && f.table ? 70000 : f.tabdim + 1 + c.s.choose(3)) + " 0 0"; expect = 2; break; default: if (f.seedmax > f.last) { x = D + " " + str(f.last + 1) + " 0"; } else { x = D + " " + str(f.seedmax) + " " + str(d + 1 + c.s.choose(5)); } expect = 1; }
            what = "reading \"" + x + "\""; int got = -1; try { got = s.e->read(x, wide, rest) ? 9 : 0; } catch (const std::range_error&) { got = 1; } catch (const std::invalid_argument&) { got = 2; }
            static const char* const N[] = { "a failed stream", "std::range_error", "std::invalid_argument" }; REQUIRE(c, got == expect, at(s) << ": " << what << " gives " << (got == 9 ? "no error" : N[got]) << ", not " << N[expect]); moved = true; break; }
        default: { what = "an engine of a dimension that is not supported"; if (c.s.coin() && f.sgn) { refused(s, "a negative seed", [&] { s.e->seed_negative(); }); break; } std::size_t d = 0; int expect = 2; switch (c.s.choose(3)) { case 0: break; case 1: d = f.kind == FAURE && f.table ? (std::size_t)qtab().primes.back() + 1 : f.tabdim + 1; break; case 2: d = f.kind == FAURE && f.table ? (std::size_t)-1 : f.tabdim + 1 + c.s.choose(~0ull - f.tabdim - 1); break; default: if (f.maxdim() < f.tabdim && f.kind != FAURE && !f.table) { d = f.maxdim() + 1 + c.s.choose(std::min<std::size_t>(f.tabdim - f.maxdim() - 1, 20)); expect = 1; } }
            int got = 0; try { f.make(d); } catch (const std::range_error&) { got = 1; } catch (const std::invalid_argument&) { got = 2; } static const char* const N[] = { "nothing", "std::range_error", "std::invalid_argument" }; REQUIRE(c, got == expect, show(f, d) << ": construction throws " << N[got] << ", not " << N[expect]); }
        }
        if (!what.empty()) { NOTE(c, what << " -> " << at(s)); c.label(what.substr(0, what.find_first_of("0123456789\""))); same(what.c_str()); }
    }
    void run(std::size_t steps) {
        p.resize(3); for (Slot& s : p) fresh(s); if (c.s.coin()) { p[1].dim = p[0].dim; p[1].e = f.make(p[0].dim); } for (std::size_t i = 0; i < p.size(); ++i) NOTE(c, "engine " << i << ": " << at(p[i])); same("construction");
        for (std::size_t i = 0; i < steps; ++i) step();
        for (Slot& s : p) { u64 k = std::min<u64>(3 * s.dim, 40); if (f.sgn && end(s) - s.L < k) continue; draw(s, k); } same("drawing more"); c.label(f.name); c.nontrivial(moved);
    }
};
static void history(Ctx& c) { const QCfg& f = qcfgs()[c.enumerate(qcfgs().size())]; q_generate_table(c, f, 12); Q02 q(c, f); q.run(2 + c.s.choose(12)); }
// two ways to one position
static void meet(Ctx& c) {
    const QCfg& f = qcfgs()[c.enumerate(qcfgs().size())]; q_generate_table(c, f, 12); Q02 q(c, f); Slot a, b; q.fresh(a); b.dim = a.dim; b.L = 0; b.e = f.make(a.dim); u128 target = (u128)q_vector(c, f, a.dim) * a.dim + c.s.choose(a.dim); if (target > q.end(a)) target = q.end(a);
    for (Slot* s : { &a, &b }) for (int i = 0; s->L != target; ++i) { // approach by discards of any size, or one seed and the rest
        u128 left = target - s->L; u64 z = left > ~0ull ? ~0ull : (u64)left; u64 part = i > 6 ? z : c.s.choose(2) == 0 ? z : c.s.special(z); if (i == 0 && c.s.coin()) { u64 n = (u64)(target / s->dim); if (n > f.last) n = f.last; n -= c.s.special(n); s->e->seed(n); s->L = (u128)n * s->dim; NOTE(c, "seed " << n); continue; } s->e->discard(part); s->L += part; NOTE(c, "discard " << part); }
    REQUIRE(c, a.e->eq(*b.e) && !a.e->ne(*b.e), q.at(a) << ": two engines that reached it by different steps are not equal"); for (Slot* s : { &a, &b }) if (!f.sgn || q.end(*s) - s->L > 3 * s->dim) q.draw(*s, std::min<u64>(2 * s->dim + 1, 30)); REQUIRE(c, a.e->eq(*b.e), q.at(a) << ": not equal after the same draws"); c.label(f.name); c.nontrivial(target > 0);
}
}
namespace pbt { void register_checks() {
    add("history", 25000, 500000, vf::history);
    add("meet", 15000, 300000, vf::meet);
} }
