// S01: damaged text is reported and leaves usable objects.
#include "eng.hpp"
#include "dist.hpp"
#include <boost/random/uniform_on_sphere.hpp>
#include <cmath>
const char* pbt_rule = "a case counts as non-trivial when a valid text was damaged (cut at a token, or a token replaced by something that is not a number), read into an object in another state, and the object was used afterwards; distinctness is over type, states, damage and position";
namespace vf {
struct Damage { std::string text, what; };
// all of it must be something no number begins with
static const char* const JUNK[] = { "x", "abc", "?7", "(3)", "-", "+", "..", "#", "*5" };
Damage damage(Ctx& c, const std::string& t) {
    std::vector<std::size_t> from, to; for (std::size_t i = 0; i < t.size();) { while (i < t.size() && std::isspace((unsigned char)t[i])) ++i; if (i == t.size()) break; from.push_back(i); while (i < t.size() && !std::isspace((unsigned char)t[i])) ++i; to.push_back(i); }
    Damage d; if (from.empty()) { d.what = "empty text"; return d; }
    std::size_t n = from.size(), k; switch (c.s.choose(3)) { case 0: k = 0; break; case 1: k = n - 1; break; default: k = c.s.choose(n - 1); }
    if (c.s.coin()) { bool ws = c.s.coin(); d.text = t.substr(0, ws || k == 0 ? from[k] : to[k - 1]); d.what = "text cut before token " + str(k) + " of " + str(n); }
    else { const char* j = JUNK[c.s.choose(sizeof JUNK / sizeof *JUNK - 1)]; d.text = t.substr(0, from[k]) + j + (c.s.coin() ? t.substr(to[k]) : std::string()); d.what = "token " + str(k) + " of " + str(n) + " replaced by \"" + j + "\""; }
    return d;
}
void s01_quasi(Ctx& c);
static void engines(Ctx& c) {
    const EngInfo& e = pick_engine(c); EngP a, d; bool plain = c.s.coin(); if (plain) { SeedSpec q; if (c.s.coin()) { q.kind = S_VALUE; q.value = 1 + c.s.choose(1000); } d = make_engine(e, q); d->discard(c.s.choose(100)); q.kind = S_VALUE; q.value = 1 + c.s.choose(1000); a = make_engine(e, q); a->discard(c.s.choose(100)); } else { a = gen_engine(c, e, 300); d = gen_engine(c, e, 200); } std::ostringstream o; a->save(o); bool wide = c.s.chance(1, 3);
    Damage m = damage(c, o.str()); NOTE(c, e.name << ": " << m.what << (wide ? ", wide" : "")); EngP keep(a->clone()); std::string w = e.name + " after reading a damaged text (" + m.what + ")";
    bool failed; if (wide) { std::wistringstream i(std::wstring(m.text.begin(), m.text.end())); d->wload(i); failed = i.fail(); } else { std::istringstream i(m.text); d->load(i); failed = i.fail(); }
    REQUIRE(c, failed, w << ": the stream does not report a failure");
    // still an engine: copies and comparisons work, values are in range, it is not stuck
    EngP x(d->clone()); REQUIRE(c, x->eq(*d) && d->eq(*x) && !x->ne(*d), w << ": not equal to its own copy"); Val lo = d->mn(), hi = d->mx(); std::size_t n = plain && c.s.chance(1, 4) ? future_len(e) : std::min<std::size_t>(future_len(e), 200); bool all = true; Val first = 0;
    for (std::size_t i = 0; i < n; ++i) { Val v = d->draw(); REQUIRE(c, v >= lo && (e.integral ? v <= hi : v < hi), w << ": value " << i << " is " << v << ", outside [" << lo << ", " << hi << (e.integral ? "]" : ")")); if (!i) first = v; else if (v != first) all = false; }
    if (plain && (hi - lo > 1000 || !e.integral) && all && n == future_len(e)) { EngP f = make_engine(e, SeedSpec()); bool fall = true; Val f0 = f->draw(); for (std::size_t i = 0; i < n; ++i) if (f->draw() != f0) fall = false; REQUIRE(c, fall, w << ": returns " << first << " for ever"); }
    // and it can be restored and seeded
    if (c.s.coin()) { std::istringstream i(o.str()); d->load(i); REQUIRE(c, !i.fail(), w << ": reading the undamaged text fails"); REQUIRE(c, d->eq(*keep), w << ": not equal to the written engine after reading the undamaged text"); same_future(c, e, *keep, *d, std::min<std::size_t>(future_len(e), 300), w + " and the undamaged one"); }
    else { SeedSpec s = gen_seed(c, e); EngP f = make_engine(e, s); d->seed(s); REQUIRE(c, d->eq(*f), w << ": seeding by " << show(s) << " gives another engine than constructing"); same_future(c, e, *f, *d, std::min<std::size_t>(future_len(e), 300), w + " and seeding"); }
    c.label("engine " + e.family); c.nontrivial();
}
struct Drawn { std::vector<ld> v; u64 pos; bool operator==(const Drawn& o) const { return pos == o.pos && v == o.v; } };
static Drawn draw(IObj& x, int e, const ScriptP& s, std::size_t n) { Drawn r; r.pos = 0; r.v.resize(n); x.draw(e, s, r.pos, r.v.data(), n); for (ld& t : r.v) if (t != t) t = -12345; return r; }
static void distributions(Ctx& c) {
    const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true), o = gen_params(c, d, true); int e = (int)c.s.choose(d.nengines - 1); std::size_t n = 1 + c.s.choose(3); ScriptP s = gen_script(c, d.maxoff(e), 12); bool wide = c.s.chance(1, 3);
    ObjP x(d.make(p)), y(c.s.coin() ? d.make(o) : d.make_default()), keep(y->clone()); std::ostringstream os; os.precision(d.io_digits); x->write(os); if (os.str().empty()) { c.label("nothing to damage"); return; } Damage m = damage(c, os.str()); std::string w; { std::ostringstream b; b.precision(21); b << d.name << y->get() << " after reading a damaged text (" << m.what << " of \"" << os.str() << "\")"; w = b.str(); } NOTE(c, w);
    bool failed; if (wide) { std::wistringstream i(std::wstring(m.text.begin(), m.text.end())); y->read(i); failed = i.fail(); } else { std::istringstream i(m.text); y->read(i); failed = i.fail(); }
    REQUIRE(c, failed, w << ": the stream does not report a failure"); c.label(d.name); c.nontrivial();
    REQUIRE(c, y->get() == keep->get(), w << ": now has the parameters " << y->get()); REQUIRE(c, y->eq(*keep) && !y->ne(*keep), w << ": not equal to what it was"); y->reset(); keep->reset(); Drawn a = draw(*y, e, s, n), b = draw(*keep, e, s, n); REQUIRE(c, a == b, w << ": other values than before");
    std::istringstream i(os.str()); y->read(i); REQUIRE(c, !i.fail(), w << ": reading the undamaged text fails");
}
// parameter sets: reported, and the set can be assigned and read again
static void parameters(Ctx& c) {
    const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true), o = gen_params(c, d, true); bool wide = c.s.chance(1, 3); ParamP x(d.make_param(p)), y(d.make_param(o)); std::ostringstream os; os.precision(d.io_digits); x->write(os); if (os.str().empty()) { c.label("nothing to damage"); return; } Damage m = damage(c, os.str()); std::ostringstream b; b.precision(21); b << d.name << " parameters " << o << " after reading a damaged text (" << m.what << " of \"" << os.str() << "\")"; std::string w = b.str(); NOTE(c, w);
    bool failed; if (wide) { std::wistringstream i(std::wstring(m.text.begin(), m.text.end())); y->read(i); failed = i.fail(); } else { std::istringstream i(m.text); y->read(i); failed = i.fail(); }
    REQUIRE(c, failed, w << ": the stream does not report a failure"); c.label(d.name); c.nontrivial(); ParamP z(y->clone()); REQUIRE(c, z->eq(*y) && !z->ne(*y), w << ": not equal to its own copy"); std::istringstream i(os.str()); y->read(i); REQUIRE(c, !i.fail(), w << ": reading the undamaged text fails");
}
static void sphere(Ctx& c) {
    typedef boost::random::uniform_on_sphere<double> D; int a = (int)c.s.choose(9); D y(a); boost::random::mt19937 g((u32)c.s.choose(99)); std::size_t used = c.s.choose(2); for (std::size_t i = 0; i < used; ++i) y(g); static const char* const T[] = { "", " ", "x", "- 3", "abc", "\n" }; std::string t = T[c.s.choose(5)]; std::string w = "uniform_on_sphere(" + str(a) + ") after reading \"" + t + "\""; NOTE(c, w); std::istringstream i(t); i >> y; REQUIRE(c, i.fail(), w << ": the stream does not report a failure"); REQUIRE(c, y.dim() == a, w << ": dimension " << y.dim()); std::vector<double> v = y(g); REQUIRE(c, (int)v.size() == a, w << ": " << v.size() << " coordinates"); c.label("sphere"); c.nontrivial();
}
}
namespace pbt { void register_checks() {
    add("engines", 40000, 400000, vf::engines);
    add("distributions", 60000, 800000, vf::distributions);
    add("parameters", 40000, 500000, vf::parameters);
    add("quasi", 30000, 400000, vf::s01_quasi);
    add("sphere", 2000, 20000, vf::sphere);
} }
