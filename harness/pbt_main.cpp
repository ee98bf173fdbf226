// Runner: forks workers, merges coverage, shrinks and stores failures.
#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <set>
#include <unordered_set>
#include <typeinfo>
#include <memory>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/assert.hpp>

// BOOST_ENABLE_ASSERT_HANDLER: a failed assertion of the library on a valid
// input is a failure of the case, with its text.
namespace boost {
void assertion_failed(char const* expr, char const* function, char const* file, long line) {
    std::ostringstream o; o << "library assertion failed: " << expr << " in " << function << " at " << file << ":" << line;
    throw pbt::Failure(o.str());
}
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line) {
    std::ostringstream o; o << "library assertion failed: " << expr << " (" << msg << ") in " << function << " at " << file << ":" << line;
    throw pbt::Failure(o.str());
}
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=24:thread_local_quarantine_size_kb=512:malloc_context_size=4"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }
#endif

namespace pbt {

std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
void add(const std::string& name, u64 quick, u64 thorough, std::function<void(Ctx&)> fn) {
    Sub s; s.name = name; s.fn = fn; s.quick = quick; s.thorough = thorough; subs().push_back(s);
}
void register_checks();

namespace {

typedef std::chrono::steady_clock clk;
double now() { return std::chrono::duration<double>(clk::now().time_since_epoch()).count(); }

struct Slot {                     // one per worker, in shared memory
    std::atomic<u64> sub, index, state; // state: 0 idle 1 running 2 failed 3 finished
    char msg[2000];
    u64 nchoices; u64 choices[200000];
};
struct Res { int status; /*0 ok 1 fail 2 crash 3 hang*/ std::string msg, text, finding; std::vector<u64> choices; };
struct ShareRes { int status; u64 n; u64 nt, nf, nm; char msg[4000]; char finding[200]; char text[60000]; u64 choices[200000]; };

const int CASE_CPU_LIMIT = 60, CASE_WALL_LIMIT = 240;
ShareRes* g_sr;
std::string jesc(const std::string& s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
void arm(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, 0);
}
// Runs one case in this process. Returns true when it passed.
bool run_case(const Sub& sub, Ctx& c, std::string& msg) {
    try { sub.fn(c); return true; }
    catch (const Failure& f) { msg = f.msg; }
    catch (const std::exception& e) { msg = std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what(); }
    catch (...) { msg = "unexpected exception of unknown type"; }
    return false;
}
// At the time limit: save the text of the case, then die by the signal.
Ctx* g_ctx;
void on_limit(int) {
    signal(SIGPROF, SIG_DFL); arm(2);
    if (g_ctx) { std::string t = g_ctx->text.str(); snprintf(g_sr->text, sizeof g_sr->text, "%s", t.c_str()); }
    kill(getpid(), SIGPROF);
    for (;;) pause();
}
// Runs a case from choices in a forked child, so that crashes and hangs are contained.
Res probe(std::size_t subi, const std::vector<u64>& ch, bool verbose, bool thorough) {
    g_sr->status = 2; g_sr->msg[0] = 0; g_sr->text[0] = 0; g_sr->n = 0; g_sr->finding[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY); if (n >= 0 && !getenv("PBT_STDERR")) dup2(n, 2);
        Ctx c((Src(ch))); g_ctx = &c;
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_limit; sa.sa_flags = SA_NODEFER; sigaction(SIGPROF, &sa, 0);
        arm(CASE_CPU_LIMIT); alarm(CASE_WALL_LIMIT); c.verbose = verbose; c.replayed = true; c.thorough = thorough; std::string msg;
        bool ok = run_case(subs()[subi], c, msg);
        g_sr->status = ok ? 0 : 1;
        snprintf(g_sr->msg, sizeof g_sr->msg, "%s", msg.c_str());
        snprintf(g_sr->finding, sizeof g_sr->finding, "%s", c.finding.c_str());
        std::string t = c.text.str(); snprintf(g_sr->text, sizeof g_sr->text, "%s", t.c_str());
        g_sr->n = std::min<u64>(c.s.made().size(), 200000);
        memcpy(g_sr->choices, c.s.made().data(), g_sr->n * 8);
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    Res r; r.status = g_sr->status; r.msg = g_sr->msg; r.text = g_sr->text; r.finding = g_sr->finding;
    r.choices.assign(g_sr->choices, g_sr->choices + g_sr->n);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        r.status = 2;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { r.status = 3; r.msg = "case did not terminate within " + str(CASE_CPU_LIMIT) + " CPU seconds"; }
        else r.msg = "process died: " + (WIFSIGNALED(st) ? "signal " + str(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + "; sanitizer report, abort or memory error)" : "exit " + str(WEXITSTATUS(st)));
        r.choices = ch;
    }
    return r;
}

std::vector<u64> shrink(std::size_t subi, std::vector<u64> best, bool thorough, double deadline, const std::set<std::string>& known, unsigned& tries) {
    auto bad = [&](const std::vector<u64>& c, std::vector<u64>& out) {
        if (now() > deadline || tries > 4000) return false;
        ++tries; Res r = probe(subi, c, false, thorough);
        if (r.status == 0 || r.status == 3) return false;
        if (r.status == 1 && !r.finding.empty() && known.count(r.finding)) return false;
        out = r.status == 1 ? r.choices : c;
        return true;
    };
    std::vector<u64> out;
    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;
        // delete chunks
        for (std::size_t k = std::max<std::size_t>(1, best.size() / 2); k >= 1; k /= 2) {
            for (std::size_t i = 0; i + k <= best.size();) {
                std::vector<u64> c(best); c.erase(c.begin() + i, c.begin() + i + k);
                if (bad(c, out) && (out.size() < best.size() || (out.size() == best.size() && out < best))) { best = out; progress = true; }
                else i += k;
                if (now() > deadline) return best;
            }
            if (k == 1) break;
        }
        // lower values
        for (std::size_t i = 0; i < best.size(); ++i) {
            if (best[i] == 0) continue;
            std::vector<u64> c(best); c[i] = 0;
            if (bad(c, out) && out.size() <= best.size() && out < best) { best = out; progress = true; continue; }
            u64 lo = 0, hi = best[i];
            for (int it = 0; it < 64 && lo + 1 < hi; ++it) {
                u64 mid = lo + (hi - lo) / 2; c = best; if (i >= c.size()) break; c[i] = mid;
                if (bad(c, out) && out.size() <= best.size() && out < best) { best = out; hi = mid; progress = true; }
                else lo = mid;
                if (i >= best.size()) break;
            }
            if (now() > deadline) return best;
        }
    }
    return best;
}

} // namespace

int main_impl(int argc, char** argv, const char* property, const char* rule) {
    std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    u64 seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
    std::string evidence, replaydir = ".", replay, only; int jobs = 8; double scale = 1, cap = 0; bool list = false, keepgoing = false;
    std::set<std::string> known;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--evidence") evidence = val(); else if (a == "--replaydir") replaydir = val();
        else if (a == "--replay") replay = val(); else if (a == "--only") only = val();
        else if (a == "--jobs") jobs = atoi(val().c_str()); else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--cap") cap = atof(val().c_str()); else if (a == "--list") list = true;
        else if (a == "--known") known.insert(val()); else if (a == "--keep-going") keepgoing = true;
    }
    bool thorough = tier == "thorough";
    if (cap == 0) cap = thorough ? 700 : 240;
    register_checks();
    if (list) { for (auto& s : subs()) printf("%s quick=%llu thorough=%llu\n", s.name.c_str(), (unsigned long long)s.quick, (unsigned long long)s.thorough); return 0; }
    g_sr = (ShareRes*)mmap(0, sizeof(ShareRes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if (!replay.empty()) {
        std::ifstream f(replay); std::string w, subname; std::vector<u64> ch; bool th = false;
        while (f >> w) {
            if (w == "subcheck") f >> subname; else if (w == "thorough") { int t; f >> t; th = t; }
            else if (w == "choices") { u64 v; while (f >> v) ch.push_back(v); }
            else std::getline(f, w);
        }
        for (std::size_t i = 0; i < subs().size(); ++i) if (subs()[i].name == subname) {
            Res r = probe(i, ch, true, th);
            printf("replay of %s: %s %s\ncase: %s\n", subname.c_str(), r.status ? "FAILS" : "passes", r.msg.c_str(), r.text.c_str());
            if (r.status) { printf("VIOLATION property=%s replay=%s\n", property, replay.c_str()); return 1; }
            return 0;
        }
        fprintf(stderr, "unknown subcheck %s\n", subname.c_str()); return 2;
    }

    double t0 = now();
    std::vector<Slot*> slots;
    std::vector<pid_t> pids;
    std::vector<std::string> outs;
    char tmpl[] = "/tmp/pbtXXXXXX"; std::string tmp = mkdtemp(tmpl);
    for (int w = 0; w < jobs; ++w) {
        slots.push_back((Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        outs.push_back(tmp + "/w" + str(w));
        pid_t p = fork();
        if (p == 0) {
            signal(SIGPROF, SIG_DFL);
            Slot& sl = *slots[w];
            std::ofstream of(outs[w]);
            std::map<std::string, u64> labels; std::unordered_set<u64> distinct;
            std::map<std::string, std::vector<std::string> > samples;
            std::map<std::string, std::string> foundknown;
            bool failed = false, truncated = false;
            std::string sums;
            for (std::size_t si = 0; si < subs().size() && !failed; ++si) {
                const Sub& sub = subs()[si];
                if (!only.empty() && sub.name.find(only) == std::string::npos) continue;
                u64 n = (u64)std::ceil((thorough ? sub.thorough : sub.quick) * scale);
                u64 evals = 0, cases = 0, nt = 0; double ts = now();
                // rotate the starting worker so that small sub-checks spread over workers
                for (u64 i = (w + si * 3) % jobs; i < n; i += jobs) {
                    if (now() - t0 > cap) { truncated = true; break; }
                    u64 cs = mix(seed * 0x9E3779B97F4A7C15ull + mix(hash_str(property) + hash_str(sub.name.c_str()) * 3 + i));
                    Ctx c((Src(cs))); c.index = i; c.thorough = thorough;
                    c.verbose = nt < 1;
                    sl.sub = si; sl.index = i; sl.state = 1;
                    arm(CASE_CPU_LIMIT);
                    std::string msg;
                    bool ok = run_case(sub, c, msg);
                    arm(0);
                    ++cases; evals += c.evals;
                    for (auto& l : c.labels) ++labels[sub.name + ":" + l];
                    if (c.interesting && ok) {
                        ++nt;
                        u64 h = hash_str(sub.name.c_str()); for (u64 v : c.s.made()) h = mix(h ^ v) + h;
                        distinct.insert(h);
                        if (c.verbose && samples[sub.name].size() < 1) { std::string t = c.text.str(); samples[sub.name].push_back(t.substr(0, 700)); }
                    }
                    if (!ok && !c.finding.empty() && known.count(c.finding)) { foundknown.insert(std::make_pair(c.finding, msg)); ok = true; }
                    if (!ok) {
                        if (keepgoing) { fprintf(stderr, "FAIL %s #%llu: %s\n", sub.name.c_str(), (unsigned long long)i, msg.c_str()); continue; }
                        sl.nchoices = std::min<u64>(c.s.made().size(), 200000);
                        memcpy(sl.choices, c.s.made().data(), sl.nchoices * 8);
                        snprintf(sl.msg, sizeof sl.msg, "%s", msg.c_str());
                        sl.state = 2; failed = true; break;
                    }
                    sl.state = 0;
                }
                of << "sub\t" << si << "\t" << cases << "\t" << evals << "\t" << nt << "\t" << (now() - ts) << "\n";
            }
            for (auto& l : labels) of << "label\t" << l.first << "\t" << l.second << "\n";
            for (auto& s : samples) for (auto& t : s.second) of << "sample\t" << s.first << "\t" << jesc(t) << "\n";
            for (auto& k : foundknown) of << "known\t" << jesc(k.first) << "\t" << jesc(k.second) << "\n";
            if (truncated) of << "truncated\t1\n";
            for (u64 h : distinct) of << "h\t" << h << "\n";
            of.close();
            if (!failed) sl.state = 3;
            _exit(0);
        }
        pids.push_back(p);
    }
    // supervise
    int alive = jobs, failw = -1; bool crashed = false; int crashsig = 0;
    while (alive > 0) {
        int st; pid_t p = wait(&st);
        if (p < 0) break;
        for (int w = 0; w < jobs; ++w) if (pids[w] == p) {
            --alive; pids[w] = -1;
            Slot& sl = *slots[w];
            if (sl.state == 2 && failw < 0) { failw = w; }
            else if (sl.state == 1 && failw < 0 && (WIFSIGNALED(st) || WEXITSTATUS(st))) {
                failw = w; crashed = true; crashsig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
            } else if (WIFSIGNALED(st) && failw < 0) { fprintf(stderr, "worker killed by signal %d outside a case\n", WTERMSIG(st)); for (pid_t q : pids) if (q > 0) kill(q, SIGKILL); return 2; }
            if (failw == w) for (pid_t q : pids) if (q > 0) kill(q, SIGKILL);
        }
    }
    // merge
    std::map<std::string, u64> labels; std::vector<std::vector<double> > persub(subs().size(), std::vector<double>(4, 0.0));
    std::vector<u64> hashes; std::map<std::string, std::vector<std::string> > samples; bool truncated = false; std::map<std::string, std::string> knownseen;
    for (auto& o : outs) {
        std::ifstream f(o); std::string line;
        while (std::getline(f, line)) {
            std::vector<std::string> t; std::istringstream is(line); std::string x; while (std::getline(is, x, '\t')) t.push_back(x);
            if (t.size() < 2) continue;
            if (t[0] == "sub" && t.size() > 5) for (int k = 0; k < 4; ++k) persub[atoi(t[1].c_str())][k] += atof(t[2 + k].c_str());
            else if (t[0] == "label" && t.size() > 2) labels[t[1]] += strtoull(t[2].c_str(), 0, 10);
            else if (t[0] == "sample" && t.size() > 2) { if (samples[t[1]].size() < 1) samples[t[1]].push_back(t[2]); }
            else if (t[0] == "known") { std::string& m = knownseen[t[1]]; std::string v = t.size() > 2 ? t[2] : ""; if (m.empty() || v < m) m = v; }
            else if (t[0] == "truncated") truncated = true;
            else if (t[0] == "h") hashes.push_back(strtoull(t[1].c_str(), 0, 10));
        }
        unlink(o.c_str());
    }
    rmdir(tmp.c_str());
    std::sort(hashes.begin(), hashes.end()); u64 distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();
    u64 total = 0, evals = 0; for (auto& p : persub) { total += (u64)p[0]; evals += (u64)p[1]; }

    int rc = 0; int nviol = 0;
    if (failw >= 0) {
        Slot& sl = *slots[failw]; std::size_t si = sl.sub; std::vector<u64> ch; std::string msg;
        if (crashed) {
            // The crash lost the list of choices: rerun the case from its seed in a child that
            // copies the choices made so far to shared memory when the signal arrives.
            u64 i = sl.index;
            u64 cs = mix(seed * 0x9E3779B97F4A7C15ull + mix(hash_str(property) + hash_str(subs()[si].name.c_str()) * 3 + i));
            pid_t p = fork();
            if (p == 0) {
                int nfd = open("/dev/null", O_WRONLY); if (nfd >= 0 && !getenv("PBT_STDERR")) dup2(nfd, 2);
                signal(SIGPROF, SIG_DFL); arm(CASE_CPU_LIMIT); alarm(CASE_WALL_LIMIT);
                Ctx c((Src(cs))); c.index = i; c.thorough = thorough;
                static Ctx* cp; cp = &c; static ShareRes* srp; srp = g_sr;
                auto dump = [](int sig) {
                    srp->n = std::min<u64>(cp->s.made().size(), 200000);
                    memcpy(srp->choices, cp->s.made().data(), srp->n * 8);
                    signal(sig, SIG_DFL); raise(sig); syscall(SYS_exit_group, 99);   // not _exit: a sanitizer's locks may be held here
                };
                for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP}) signal(s, dump);
                std::string m; run_case(subs()[si], c, m);
                dump(SIGABRT);
                _exit(0);
            }
            int st; waitpid(p, &st, 0);
            ch.assign(g_sr->choices, g_sr->choices + g_sr->n);
            msg = "worker died with signal " + str(crashsig);
        } else { ch.assign(sl.choices, sl.choices + sl.nchoices); msg = sl.msg; }
        Res r0 = probe(si, ch, true, thorough);
        unsigned tries = 0;
        if (r0.status != 0 && r0.status != 3)
            ch = shrink(si, r0.status == 1 ? r0.choices : ch, thorough, now() + (thorough ? 60 : 25), known, tries);
        Res r; int bad = 0; for (int k = 0; k < 3; ++k) { Res rr = probe(si, ch, true, thorough); if (rr.status) { ++bad; r = rr; } }
        for (int k = 0; k < 20 && bad < 3; ++k) { Res rr = probe(si, ch, true, thorough); if (rr.status) { ++bad; r = rr; } }   // only what depends on real threads gets here
        mkdir(replaydir.c_str(), 0755);
        u64 h = seed; for (u64 v : ch) h = mix(h ^ v);
        char hx[32]; snprintf(hx, sizeof hx, "%08llx", (unsigned long long)(h & 0xffffffffu));
        std::string path = replaydir + "/" + property + "-" + subs()[si].name + "-" + hx + ".txt";
        std::ofstream f(path);
        f << "property " << property << "\nsubcheck " << subs()[si].name << "\nthorough " << (thorough ? 1 : 0) << "\nseed " << seed << "\nmessage " << (r.msg.empty() ? msg : r.msg)
          << "\ncase " << r.text << "\nchoices\n";
        for (u64 v : ch) f << v << "\n";
        f.close();
        printf("FAILED %s/%s: %s\n  case: %s\n  (shrunk in %u runs to %zu choices, replayed: %d failures)\n", property, subs()[si].name.c_str(), (r.msg.empty() ? msg : r.msg).c_str(), r.text.substr(0, 3000).c_str(), tries, ch.size(), bad);
        if (bad == 3) { printf("VIOLATION property=%s replay=%s\n", property, path.c_str()); rc = 1; nviol = 1; }
        else { printf("not reproducible: inconclusive\n"); rc = 2; }
    }
    for (auto& k : knownseen) printf("KNOWN-FINDING: property=%s %s (%s)\n", property, k.first.c_str(), k.second.c_str());
    double wall = now() - t0;
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": \"" << property << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << total << ",\n  \"oracle_comparisons\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": \"" << jesc(rule) << "\",\n  \"truncated_by_time\": " << (truncated ? "true" : "false") << ",\n  \"subchecks\": {";
        bool first = true;
        for (std::size_t i = 0; i < subs().size(); ++i) if (persub[i][0] > 0) {
            f << (first ? "" : ",") << "\n   \"" << jesc(subs()[i].name) << "\": {\"cases\": " << (u64)persub[i][0] << ", \"oracle_comparisons\": " << (u64)persub[i][1] << ", \"nontrivial\": " << (u64)persub[i][2] << ", \"worker_s\": " << persub[i][3] << "}"; first = false;
        }
        f << "\n  },\n  \"classes\": {"; first = true;
        for (auto& l : labels) { f << (first ? "" : ",") << "\n   \"" << jesc(l.first) << "\": " << l.second; first = false; }
        f << "\n  },\n  \"samples\": ["; first = true;
        for (auto& s : samples) for (auto& t : s.second) { f << (first ? "" : ",") << "\n   \"" << jesc(s.first) << ": " << t << "\""; first = false; }
        f << "\n  ]\n },\n \"assumptions\": [],\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
    }
    printf("%s %s seed=%llu: %llu cases, %llu comparisons, %llu distinct non-trivial, %.1fs%s\n", property, tier.c_str(), (unsigned long long)seed, (unsigned long long)total, (unsigned long long)evals, (unsigned long long)distinct, wall, truncated ? " (stopped by time cap)" : "");
    return rc;
}

} // namespace pbt

#ifndef PBT_PROPERTY
#error PBT_PROPERTY undefined
#endif
extern const char* pbt_rule;
int main(int argc, char** argv) { return pbt::main_impl(argc, argv, PBT_PROPERTY, pbt_rule); }
