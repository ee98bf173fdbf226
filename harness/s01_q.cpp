// S01, quasi-random engines
#include "qeng.hpp"
namespace vf {
struct Damage { std::string text, what; };
Damage damage(Ctx& c, const std::string& t);
void s01_quasi(Ctx& c) {
    const std::vector<QCfg>& all = qcfgs(); const QCfg& f = all[c.enumerate(all.size())]; if (!f.stream) { c.label("not streamed"); return; }
    if (f.table) q_generate_table(c, f, 8);
    std::size_t da = q_dim(c, f, 8), db = c.s.coin() ? da : q_dim(c, f, 8); QP a = f.make(da), b = f.make(db); u64 na = q_vector(c, f, da), nb = q_vector(c, f, db); try { a->seed(na); for (u64 i = c.s.choose(da - 1); i--;) a->call(); b->seed(nb); for (u64 i = c.s.choose(db - 1); i--;) b->call(); } catch (const std::range_error&) { c.label("end of the sequence"); return; }
    bool wide = c.s.chance(1, 3); std::string t = a->write(false); Damage m = damage(c, t); std::string w = show(f, db) + " after reading a damaged text (" + m.what + " of \"" + t + "\")", rest; NOTE(c, w); QP keep = b->clone();
    bool ok = true; ok = b->read(m.text, wide, rest); REQUIRE(c, !ok, w << ": the stream does not report a failure");
    REQUIRE(c, b->dim() == db, w << ": dimension " << b->dim()); REQUIRE(c, b->eq(*keep) && keep->eq(*b) && !b->ne(*keep), w << ": not equal to what it was");
    std::size_t n = 1 + c.s.choose(3 * db); for (std::size_t i = 0; i < n; ++i) { ld x = 0, y = 0; bool ex = false, ey = false; try { x = keep->call(); } catch (const std::range_error&) { ex = true; } try { y = b->call(); } catch (const std::range_error&) { ey = true; } REQUIRE(c, ex == ey && x == y, w << ": value " << i << " is " << y << ", was " << x); if (ex) break; }
    ok = b->read(t, wide, rest); REQUIRE(c, ok && b->dim() == da && b->eq(*a), w << ": reading the undamaged text fails"); c.label("quasi " + f.name); c.nontrivial();
}
}
