// E03: text save/restore of engines.
#include "eng.hpp"
#include <cwchar>
const char* pbt_rule = "a case counts as non-trivial when the saved engine is not freshly default-constructed and is restored into an engine in a different state, with text before or after it in the stream or in a wide or non-default-format stream; distinctness is over engine, histories, target state and stream layout";
namespace vf {
template<class Ch> struct Side;
template<> struct Side<char> { typedef std::stringstream SS; static void save(const IEng& e, SS& s) { e.save(s); } static void load(IEng& e, SS& s) { e.load(s); } };
template<> struct Side<wchar_t> { typedef std::wstringstream SS; static void save(const IEng& e, SS& s) { e.wsave(s); } static void load(IEng& e, SS& s) { e.wload(s); } };
template<class Ch> static void roundtrip(Ctx& c, const EngInfo& e) {
    typedef std::basic_string<Ch> Str; typedef typename Side<Ch>::SS SS;
    EngP a = gen_engine(c, e), keep(a->clone());
    SS ss;
    // stream formats under which text of integers still reads back
    int fmt = (int)c.s.choose(5);
    switch (fmt) { case 1: ss.setf(std::ios::left, std::ios::adjustfield); break; case 2: if (e.integral) { ss.setf(std::ios::hex, std::ios::basefield); } else ss.setf(std::ios::scientific, std::ios::floatfield); break;
        case 3: ss.precision(c.s.choose(20)); break; case 4: if (e.integral) ss.setf(std::ios::oct, std::ios::basefield); else ss.precision(0); break; case 5: ss.setf(std::ios::uppercase | std::ios::showpoint); break; default: break; }
    std::ios_base::fmtflags fl = ss.flags(); std::streamsize pr = ss.precision();
    bool prefix = c.s.coin(), suffix = c.s.coin(); int n = 1 + (int)c.s.choose(2);
    std::vector<EngP> orig, dest;
    if (prefix) ss << 77 << Ch(' ');
    for (int k = 0; k < n; ++k) {
        if (k == 0) orig.push_back(EngP(a->clone())); else { orig.push_back(gen_engine(c, e, 300)); }
        Side<Ch>::save(*orig.back(), ss);
        if (k + 1 < n || suffix) ss << Ch(' ');
    }
    if (suffix) ss << 4242;
    REQUIRE(c, ss.good(), e.name << ": stream not good after writing");
    REQUIRE(c, orig[0]->eq(*keep), e.name << ": writing changed the engine");
    REQUIRE(c, ss.flags() == fl && ss.precision() == pr, e.name << ": writing changed the stream's format");
    NOTE(c, n << " engines in one stream, format " << fmt << (prefix ? ", prefixed" : "") << (suffix ? ", followed by a number" : "") << (sizeof(Ch) > 1 ? ", wide" : ""));
    int x = 0; if (prefix) { ss >> x; REQUIRE(c, x == 77, "harness prefix"); ss.get(); }
    for (int k = 0; k < n; ++k) {
        EngP d = c.s.coin() ? gen_engine(c, e, 200) : make_engine(e, SeedSpec());
        Side<Ch>::load(*d, ss);
        REQUIRE(c, !ss.fail(), e.name << ": reading back failed (item " << k << ")");
        REQUIRE(c, d->eq(*orig[k]) && !d->ne(*orig[k]), e.name << ": engine read back is not equal to the one written");
        dest.push_back(std::move(d));
    }
    REQUIRE(c, ss.flags() == fl && ss.precision() == pr, e.name << ": reading changed the stream's format");
    if (suffix) { int y = 0; ss >> y; REQUIRE(c, !ss.fail() && y == 4242, e.name << ": reading consumed text after the engine"); }
    else { Ch ch; ss >> ch; REQUIRE(c, ss.fail(), e.name << ": text left over after reading back"); }
    std::size_t len = c.s.chance(1, 4) ? future_len(e) : std::min<std::size_t>(future_len(e), 700);
    for (int k = 0; k < n; ++k) same_future(c, e, *orig[k], *dest[k], len, e.name + ": restored engine");
    c.label(e.family); c.nontrivial(prefix || suffix || fmt || n > 1 || sizeof(Ch) > 1);
}
static void narrow(Ctx& c) { roundtrip<char>(c, pick_engine(c)); }
static void wide(Ctx& c) { roundtrip<wchar_t>(c, pick_engine(c)); }
// every position of a full state cycle is saved and restored
static void positions(Ctx& c) {
    const EngInfo& e = pick_engine(c, [](const EngInfo& i) { return i.hints.empty() || i.hints[0] < 700; });
    SeedSpec s = gen_seed(c, e); EngP a = make_engine(e, s), d = gen_engine(c, e, 50);
    u64 big = 8; for (u64 h : e.hints) if (h < 400) big = std::max(big, h);
    u64 from = c.s.choose(big), cnt = std::min<u64>(2 * big + 3, 40);
    NOTE(c, e.name << " seeded by " << show(s) << ": saved at positions " << from << ".." << from + cnt);
    a->discard(from);
    for (u64 i = 0; i < cnt; ++i) {
        std::stringstream ss; a->save(ss); ss << " 9"; d->load(ss); int y = 0; ss >> y;
        REQUIRE(c, y == 9, e.name << " at position " << from + i << ": text after the engine lost");
        REQUIRE(c, d->eq(*a), e.name << " restored at position " << from + i << " is not equal");
        Val x = a->draw(), z = d->draw(); REQUIRE(c, x == z, e.name << " restored at position " << from + i << " continues with " << z << " instead of " << x);
        REQUIRE(c, d->eq(*a), e.name << " restored at position " << from + i << " is not equal one draw later");
    }
    same_future(c, e, *a, *d, std::min<std::size_t>(future_len(e), 1500), e.name + ": restored engine");
    c.label(e.family); c.nontrivial();
}
}
namespace pbt { void register_checks() {
    add("narrow", 26000, 150000, vf::narrow);
    add("wide", 14000, 80000, vf::wide);
    add("positions", 9000, 60000, vf::positions);
} }
