// D08: writing and reading distributions and parameters.
#include "dist.hpp"
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <sstream>
const char* pbt_rule = "a case counts as non-trivial when a distribution or parameter set was written, read into another object of the type and compared in equality, reported parameters and values; distinctness is over distribution, parameters, target, format, suffix and script";
namespace vf {
static std::string name(const IDist& d, const P& p) { std::ostringstream o; o.precision(21); o << d.name << p; return o.str(); }
static bool soft(const IDist& d) { return d.real_weights && (d.kind == DISCRETE || d.kind == HYPEREXP || d.kind == PCONST); }
static bool close_to(const IDist& d, const P& a, const P& b) { if (a.v != b.v || a.b != b.b || a.w.size() != b.w.size()) return false; for (std::size_t i = 0; i < a.w.size(); ++i) if (!(std::fabs(a.w[i] - b.w[i]) <= d.eps * 32 * (a.w.size() + 2) * std::max(a.w[i], b.w[i]))) return false; return true; }
struct Drawn { std::vector<ld> v; u64 pos; bool operator==(const Drawn& o) const { return pos == o.pos && v == o.v; } };
static Drawn draw(IObj& x, int e, const ScriptP& s, std::size_t n, u64 from = 0) { Drawn r; r.pos = from; r.v.resize(n); x.draw(e, s, r.pos, r.v.data(), n); for (ld& t : r.v) if (t != t) t = -12345; return r; }
static std::string show(const Drawn& d) { std::ostringstream o; o.precision(21); for (ld x : d.v) o << x << " "; o << "(" << d.pos << " engine values)"; return o.str(); }
template<class Ch> static std::string narrow(const std::basic_string<Ch>& s) { return std::string(s.begin(), s.end()); }
struct Format { std::ios_base::fmtflags f; int precision; int fill; int suffix; };
static const char* const SUFFIX[] = { "", " ", "\n", " 17 4.5 tail", "|tail", ";", "\t\n  x", "," };
static Format gen_format(Ctx& c, const IDist& d, std::string& what) {
    Format r; r.f = std::ios_base::dec | std::ios_base::skipws; r.precision = d.io_digits + (c.s.chance(1, 3) ? (int)c.s.choose(8) : 0); r.fill = c.s.chance(1, 4) ? '*' : ' '; r.suffix = (int)c.s.choose(7); what = "precision " + str(r.precision);
    if (c.s.chance(1, 3)) { r.f |= std::ios_base::scientific; what += " scientific"; } if (c.s.chance(1, 4)) { r.f |= std::ios_base::showpos; what += " showpos"; } if (c.s.chance(1, 4)) { r.f |= std::ios_base::uppercase; what += " uppercase"; } if (c.s.chance(1, 4)) { r.f |= std::ios_base::left; what += " left"; } if (c.s.chance(1, 5)) { r.f |= std::ios_base::showpoint; what += " showpoint"; } if (c.s.chance(1, 5)) { r.f |= std::ios_base::boolalpha; what += " boolalpha"; }
    return r;
}
template<class Ch, class T> static std::basic_string<Ch> save(Ctx& c, const std::string& w, const T& x, const Format& f) {
    std::basic_ostringstream<Ch> o; o.flags(f.f); o.precision(f.precision); o.fill((Ch)f.fill); x.write(o); REQUIRE(c, o.good(), w << ": writing fails"); REQUIRE(c, o.flags() == f.f && o.precision() == f.precision && o.fill() == (Ch)f.fill && o.width() == 0, w << ": writing changed the format of the stream"); return o.str();
}
template<class Ch, class T> static void load(Ctx& c, const std::string& w, const std::basic_string<Ch>& text, T& y, const Format& f) {
    std::string sx = SUFFIX[f.suffix]; std::basic_string<Ch> all = text + std::basic_string<Ch>(sx.begin(), sx.end()); std::basic_istringstream<Ch> i(all); i.flags(f.f); i.precision(f.precision); i.fill((Ch)f.fill); y.read(i);
    REQUIRE(c, !i.fail() && !i.bad(), w << ": reading \"" << narrow(all) << "\" fails"); REQUIRE(c, i.flags() == f.f && i.precision() == f.precision && i.fill() == (Ch)f.fill && i.width() == 0, w << ": reading changed the format of the stream");
    i.clear(); std::basic_string<Ch> rest; for (typename std::basic_istringstream<Ch>::int_type k; (k = i.get()) != std::char_traits<Ch>::eof();) rest += (Ch)k; REQUIRE(c, narrow(rest) == sx, w << ": after reading \"" << narrow(all) << "\" the stream continues with \"" << narrow(rest) << "\"");
}
template<class T, class Ch> static void trip(Ctx& c, const std::string& w, const T& x, T& y, const Format& f) { load<Ch>(c, w, save<Ch>(c, w, x, f), y, f); }
static void objects(Ctx& c) {
    const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true), o = gen_params(c, d, true); std::string fw; Format f = gen_format(c, d, fw); bool wide = c.s.coin(); int e = (int)c.s.choose(d.nengines - 1), target = (int)c.s.choose(2); std::size_t used = c.s.choose(4), n = 1 + c.s.choose(4);
    std::string w = name(d, p) + (target == 0 ? " into a default one" : " into " + name(d, o)) + ", " + fw + (wide ? ", wide" : ""); NOTE(c, w << ", " << used << " values drawn before"); ScriptP s = gen_script(c, d.maxoff(e), 12), t = gen_script(c, d.maxoff(e), 12);
    ObjP x(d.make(p)), silent(d.make(p)), y(target == 0 ? d.make_default() : d.make(o)); Drawn a0 = draw(*x, e, t, used), b0 = draw(*silent, e, t, used); if (target == 2) draw(*y, e, t, 1 + used);
    P before = x->get(); if (wide) trip<IObj, wchar_t>(c, w, *x, *y, f); else trip<IObj, char>(c, w, *x, *y, f);
    // what was written goes on as if nothing had happened
    REQUIRE(c, x->eq(*silent) && !x->ne(*silent) && x->get() == before, w << ": writing changed the distribution"); ObjP x2(x->clone()); Drawn a = draw(*x, e, s, n), b = draw(*silent, e, s, n); REQUIRE(c, a == b, w << ": values after writing " << show(a) << ", without it " << show(b));
    bool eq = x->eq(*y), got = y->get() == before; REQUIRE(c, y->eq(*x) == eq && x->ne(*y) == !eq && y->ne(*x) == !eq, w << ": == and != disagree"); c.label(d.name); c.nontrivial();
    if (soft(d) && !(eq && got)) { REQUIRE(c, close_to(d, before, y->get()), w << ": reports " << y->get() << ", was " << before); c.finding = "real-weights-renormalised"; REQUIRE(c, eq && got, w << ": the restored distribution is not equal to the one written"); }
    REQUIRE(c, got, w << ": reports " << y->get() << ", was " << before); REQUIRE(c, eq, w << ": the restored distribution is not equal to the one written"); REQUIRE(c, y->mn() == x->mn() && y->mx() == x->mx(), w << ": other bounds");
    Drawn q = draw(*y, e, s, n); REQUIRE(c, q == a, w << ": the restored one returns " << show(q) << ", the written one " << show(a));
}
static void params(Ctx& c) {
    const IDist& d = *dists()[c.enumerate(dists().size())]; P p = gen_params(c, d, true), o = gen_params(c, d, true); std::string fw; Format f = gen_format(c, d, fw); bool wide = c.s.coin(); int target = (int)c.s.choose(1);
    std::string w = name(d, p) + " parameters" + (target == 0 ? " into default ones" : " into " + name(d, o)) + ", " + fw + (wide ? ", wide" : ""); NOTE(c, w); ParamP x(d.make_param(p)), keep(x->clone()), y(target == 0 ? d.param_default() : d.make_param(o)); if (wide) trip<IParam, wchar_t>(c, w, *x, *y, f); else trip<IParam, char>(c, w, *x, *y, f);
    REQUIRE(c, x->eq(*keep), w << ": writing changed the parameters"); bool eq = x->eq(*y), got = y->get() == x->get(); REQUIRE(c, y->eq(*x) == eq && x->ne(*y) == !eq && y->ne(*x) == !eq, w << ": == and != disagree"); c.label(d.name); c.nontrivial();
    if (soft(d) && d.kind == HYPEREXP && !(eq && got)) { REQUIRE(c, close_to(d, x->get(), y->get()), w << ": reports " << y->get() << ", was " << x->get()); c.finding = "real-weights-renormalised"; REQUIRE(c, eq && got, w << ": the restored parameters are not equal to those written"); }
    REQUIRE(c, got, w << ": reports " << y->get() << ", was " << x->get()); REQUIRE(c, eq, w << ": the restored parameters are not equal to those written");
    ObjP a(d.make_from(*x)), b(d.make_from(*y)); REQUIRE(c, a->eq(*b), w << ": distributions made from the parameters differ"); int e = (int)c.s.choose(d.nengines - 1); ScriptP s = gen_script(c, d.maxoff(e), 12); Drawn u = draw(*a, e, s, 3), v = draw(*b, e, s, 3); REQUIRE(c, u == v, w << ": values " << show(v) << " after restoring and " << show(u) << " before");
}
// several objects in one stream, one after the other
template<class Ch> static void sequence_t(Ctx& c) {
    std::size_t n = 2 + c.s.choose(3); std::basic_ostringstream<Ch> o; o.precision(21); std::vector<ObjP> x, y; std::vector<ParamP> q, r; std::vector<const IDist*> ds; std::string w = "in one stream:"; std::vector<int> kind;
    for (std::size_t i = 0; i < n; ++i) { const IDist& d = *dists()[c.s.choose(dists().size() - 1)]; P p = gen_params(c, d, true); w += " " + name(d, p); kind.push_back((int)c.s.choose(1)); ds.push_back(&d); x.push_back(ObjP(d.make(p))); y.push_back(ObjP(d.make(gen_params(c, d, true)))); q.push_back(ParamP(d.make_param(p))); r.push_back(ParamP(d.param_default())); if (i) o << (Ch)(c.s.coin() ? ' ' : '\n'); if (kind[i]) x[i]->write(o); else q[i]->write(o); }
    NOTE(c, w); std::basic_istringstream<Ch> in(o.str());
    for (std::size_t i = 0; i < n; ++i) { const IDist& d = *ds[i]; if (kind[i]) y[i]->read(in); else r[i]->read(in); REQUIRE(c, !in.fail(), w << ": reading number " << i << " fails: \"" << narrow(o.str()) << "\""); P a = kind[i] ? x[i]->get() : q[i]->get(), b = kind[i] ? y[i]->get() : r[i]->get(); if (soft(d)) REQUIRE(c, close_to(d, a, b), w << ": number " << i << " is " << b << ", was " << a); else { REQUIRE(c, a == b, w << ": number " << i << " is " << b << ", was " << a); REQUIRE(c, kind[i] ? x[i]->eq(*y[i]) : q[i]->eq(*r[i]), w << ": number " << i << " is not equal"); } }
    c.label("sequence"); c.nontrivial();
}
static void sequence(Ctx& c) { if (c.s.coin()) sequence_t<char>(c); else sequence_t<wchar_t>(c); }
// spheres: the dimension
template<class Ch> static void sphere_t(Ctx& c) {
    typedef boost::random::uniform_on_sphere<double> D; typedef typename D::param_type X; int a = (int)c.s.choose(c.s.coin() ? 5 : 60), b = (int)c.s.choose(c.s.coin() ? 5 : 60); bool param = c.s.coin(); D x(a), y(b), silent(a); X p(a), q(b); std::size_t used = c.s.choose(2); u32 seed = (u32)c.s.choose(~0u); std::string w = "uniform_on_sphere of dimension " + str(a) + (param ? " parameters" : "") + " into " + str(b); NOTE(c, w);
    boost::random::mt19937 g(seed), h(seed), t(5); for (std::size_t i = 0; i < used; ++i) { x(g); silent(h); y(t); } static const char* const SX[] = { "", " ", "\n", " 4 x", ";", " 5" }; std::string sx = SX[c.s.choose(5)];
    std::basic_ostringstream<Ch> o; if (c.s.chance(1, 3)) o.setf(std::ios_base::showpos); if (param) o << p; else o << x; REQUIRE(c, o.good(), w << ": writing fails"); std::basic_istringstream<Ch> i(o.str() + std::basic_string<Ch>(sx.begin(), sx.end())); if (param) i >> q; else i >> y; REQUIRE(c, !i.fail(), w << ": reading \"" << narrow(i.str()) << "\" fails"); i.clear(); std::string rest; for (typename std::basic_istringstream<Ch>::int_type k; (k = i.get()) != std::char_traits<Ch>::eof();) rest += (char)k; REQUIRE(c, rest == sx, w << ": the stream continues with \"" << rest << "\"");
    if (param) { REQUIRE(c, q == p && !(q != p) && q.dim() == a, w << ": not equal, dimension " << q.dim()); y = D(q); } REQUIRE(c, y == x && !(y != x) && y.dim() == a && x == silent, w << ": not equal, dimension " << y.dim()); REQUIRE(c, (y.min)() == (x.min)() && (y.max)() == (x.max)(), w << ": other bounds");
    boost::random::mt19937 g2(g); for (int k = 0; k < 3; ++k) { std::vector<double> u = x(g), v = y(g2), z = silent(h); REQUIRE(c, u == v && u == z && (int)u.size() == a && g == g2 && g == h, w << ": other values (" << v.size() << " coordinates)"); } c.label("sphere"); c.nontrivial();
}
static void sphere(Ctx& c) { if (c.s.coin()) sphere_t<char>(c); else sphere_t<wchar_t>(c); }
}
namespace pbt { void register_checks() {
    add("objects", 150000, 2000000, vf::objects);
    add("params", 120000, 1500000, vf::params);
    add("sequence", 30000, 400000, vf::sequence);
    add("sphere", 6000, 60000, vf::sphere);
} }
