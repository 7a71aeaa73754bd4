// Engine: forked workers, crash/hang containment, shrinking, replay.
//   prog run --seed N --scale X --jobs J --cap SECONDS --out FILE.json --replay-out FILE [--only NAME]
//   prog replay FILE            exit 1 if the recorded case fails, 0 if it passes
//   prog shrink FILE OUT        shrink a recorded failing case
//   prog list
#include "pbt.hpp"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

namespace pbt {
std::vector<Test *> &registry() { static std::vector<Test *> r; return r; }
Test::Test(char const *n, TestFn f, double w, char const *r) : name(n), fn(f), weight(w), rule(r) { registry().push_back(this); }
}
using namespace pbt;

enum Verdict { Pass, Discarded, Fail };
static Verdict run_one(Test const &t, Src &s, std::string &msg)
{
    try { t.fn(s); return Pass; }
    catch(Discard const &) { return Discarded; }
    catch(Failure const &f) { msg = f.msg; return Fail; }
    catch(std::exception const &e) { msg = std::string("unexpected exception: ") + e.what(); return Fail; }
    catch(...) { msg = "unexpected exception of unknown type"; return Fail; }
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(unsigned char const *d, std::size_t n)
{
    if(n < 2) return 0;
    std::vector<Test *> &r = registry();
    Test const &t = *r[d[0] % r.size()];
    Src s(d + 1, n - 1);
    static std::uint64_t *mirror = 0;
    std::string msg;
    // the choices drawn so far survive a sanitizer abort through a file mapping
    if(!mirror)
    {
        if(char const *p = std::getenv("PBT_FUZZ_OUT"))
        {
            int f = open((std::string(p) + "." + std::to_string(getpid())).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            std::size_t sz = (Src::max_choices + 2) * 8;
            if(f >= 0 && ftruncate(f, sz) == 0)
                mirror = (std::uint64_t *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
            if(mirror == MAP_FAILED) mirror = 0;
        }
    }
    if(mirror) { s.set_mirror(mirror); mirror[Src::max_choices + 1] = d[0] % r.size(); }
    if(run_one(t, s, msg) == Fail)
    {
        std::fprintf(stderr, "PBT-FUZZ-FAILURE test=%s msg=%s\n", t.name, msg.c_str());
        __builtin_trap();
    }
    return 0;
}
#else

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static int const CPU_LIMIT = 30; // CPU seconds for one case; a normal case needs well under 0.1 s

static std::uint64_t hash_str(char const *s)
{
    std::uint64_t h = 1469598103934665603ULL;
    for(; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
    return h;
}
static std::uint64_t case_seed(std::uint64_t seed, char const *name, std::uint64_t idx)
{
    std::uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ hash_str(name);
    splitmix(s); s ^= idx * 0xd1342543de82ef95ULL; splitmix(s);
    return splitmix(s);
}

static void arm_cpu_timer(int sec)
{
    itimerval v; std::memset(&v, 0, sizeof v); v.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &v, 0);
}

static std::string json_str(std::string const &s)
{
    std::string o = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if(c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Outcome { Verdict v; std::string msg; std::vector<std::uint64_t> choices; std::string notes; };

// run a choice sequence (or a seeded case) in a forked child
static Outcome run_forked(Test const &t, std::vector<std::uint64_t> const *ch, std::uint64_t seed, bool quiet, bool notes, int cpu)
{
    static std::uint64_t *mirror = 0;
    if(!mirror)
        mirror = (std::uint64_t *)mmap(0, (Src::max_choices + 2) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mirror[0] = 0;
    int p[2];
    if(pipe(p)) { perror("pipe"); std::exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid == 0)
    {
        close(p[0]);
        if(quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
        signal(SIGPROF, SIG_DFL);
        arm_cpu_timer(cpu);
        std::string msg;
        Src s = ch ? Src(*ch) : Src(seed);
        s.set_noting(notes);
        s.set_mirror(mirror);
        Verdict v = run_one(t, s, msg);
        std::ostringstream o;
        o << (int)v << '\n' << msg << '\0' << s.notes();
        std::string d = o.str(); std::size_t off = 0;
        while(off < d.size()) { ssize_t w = write(p[1], d.data() + off, d.size() - off); if(w <= 0) break; off += w; }
        _exit(0);
    }
    close(p[1]);
    std::string d; char buf[65536]; ssize_t r;
    while((r = read(p[0], buf, sizeof buf)) > 0) d.append(buf, r);
    close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    Outcome out; out.v = Pass;
    out.choices.assign(mirror + 1, mirror + 1 + mirror[0]);
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !d.empty())
    {
        out.v = (Verdict)(d[0] - '0');
        std::string rest = d.substr(2);
        std::size_t z = rest.find('\0');
        out.msg = rest.substr(0, z); if(z != std::string::npos) out.notes = rest.substr(z + 1);
    }
    else
    {
        out.v = Fail;
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) out.msg = "does not terminate (CPU limit of " + std::to_string(cpu) + " s for one case)";
        else if(WIFSIGNALED(st)) out.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st));
        else out.msg = "sanitizer report or abnormal exit, status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }
    return out;
}

// ---------------------------------------------------------------- shrinking
struct Shrinker
{
    Test const &t; std::vector<std::uint64_t> best; std::string msg; bool hang; int tries; double deadline;
    bool attempt(std::vector<std::uint64_t> const &c)
    {
        if(now() > deadline || tries > 20000) return false;
        ++tries;
        Outcome o = run_forked(t, &c, 0, true, false, hang ? 4 : 20);
        if(o.v != Fail) return false;
        std::vector<std::uint64_t> n = o.choices;
        while(!n.empty() && n.back() == 0) n.pop_back();
        if(n.size() < best.size() || (n.size() == best.size() && n < best)) { best = n; msg = o.msg; return true; }
        return false;
    }
    void run()
    {
        bool progress = true;
        while(progress && now() < deadline)
        {
            progress = false;
            std::vector<std::size_t> ks;
            for(std::size_t k = best.size() / 2; k > 8; k /= 2) ks.push_back(k);
            for(std::size_t k = 8; k >= 1; --k) ks.push_back(k);
            for(std::size_t k : ks)
            {
                for(std::size_t i = best.size(); i >= k && i > 0;)
                {
                    if(now() > deadline) return;
                    std::vector<std::uint64_t> c(best);
                    c.erase(c.begin() + (i - k), c.begin() + i);
                    if(attempt(c)) { progress = true; i = std::min(i, best.size()); }
                    else i -= std::min(i, k <= 8 ? std::size_t(1) : k / 2);
                }
            }
            for(std::size_t i = 0; i < best.size(); ++i)
            {
                if(best[i] == 0) continue;
                std::vector<std::uint64_t> c(best); c[i] = 0;
                if(attempt(c)) { progress = true; continue; }
                std::uint64_t lo = 0, hi = i < best.size() ? best[i] : 0; // lo passes, hi fails
                while(hi - lo > 1 && now() < deadline)
                {
                    std::uint64_t mid = lo + (hi - lo) / 2;
                    c = best; if(i >= c.size()) break; c[i] = mid;
                    if(attempt(c)) { progress = true; hi = mid; } else lo = mid;
                }
                // parity-preserving step (signed integers alternate sign)
                if(i < best.size() && best[i] >= 2) { c = best; c[i] -= 2; if(attempt(c)) progress = true; }
                if(now() > deadline) return;
            }
        }
    }
};

static bool write_replay(std::string const &path, Test const &t, std::vector<std::uint64_t> const &c, std::string const &msg, std::string const &notes)
{
    std::ofstream o(path.c_str());
    o << "test " << t.name << "\nchoices";
    for(std::uint64_t x : c) o << ' ' << x;
    o << "\nmessage " << msg << "\ninput " << notes << "\n";
    return (bool)o;
}
static Test *find_test(std::string const &n)
{
    for(Test *t : registry()) if(n == t->name) return t;
    return 0;
}
static bool read_replay(char const *path, Test *&t, std::vector<std::uint64_t> &c)
{
    std::ifstream in(path); std::string w, name; t = 0;
    std::string line;
    while(std::getline(in, line))
    {
        std::istringstream l(line); l >> w;
        if(w == "test") { l >> name; t = find_test(name); }
        else if(w == "choices") { std::uint64_t x; while(l >> x) c.push_back(x); }
    }
    return t != 0;
}

// confirm 3 times, shrink, confirm 3 times, write the replay file
static bool confirm_and_report(Test const &t, std::vector<std::uint64_t> const *ch, std::uint64_t seed, std::string const &replay_out, double shrink_s)
{
    Outcome first = run_forked(t, ch, seed, true, false, CPU_LIMIT);
    if(first.v != Fail) return false;
    bool hang = first.msg.find("does not terminate") == 0; // each confirmation of a hang costs the whole limit
    for(int i = 0; i < (hang ? 1 : 2); ++i)
        if(run_forked(t, &first.choices, 0, true, false, CPU_LIMIT).v != Fail) return false;
    Shrinker sh = { t, first.choices, first.msg, hang, 0, now() + shrink_s };
    std::vector<std::uint64_t> &b = sh.best; while(!b.empty() && b.back() == 0) b.pop_back();
    sh.run();
    std::vector<std::uint64_t> final_c = sh.best;
    for(int i = 0; i < (hang ? 1 : 3); ++i)
        if(run_forked(t, &final_c, 0, true, false, CPU_LIMIT).v != Fail) { final_c = first.choices; break; }
    Outcome last = run_forked(t, &final_c, 0, true, true, hang ? 4 : CPU_LIMIT);
    Outcome noted = last;
    if(last.v != Fail) { last.msg = first.msg; }
    if(!write_replay(replay_out, t, final_c, last.msg, noted.notes)) { std::fprintf(stderr, "cannot write %s\n", replay_out.c_str()); }
    std::printf("FAILED test=%s choices=%zu (from %zu, %d shrink attempts)\n  %s\n  input: %s\n", t.name, final_c.size(), first.choices.size(), sh.tries, last.msg.c_str(), noted.notes.c_str());
    return true;
}

// ---------------------------------------------------------------- exploration
struct Slot { volatile std::uint64_t idx; volatile int test; volatile int in_case; };

int main(int argc, char **argv)
{
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> o;
    std::vector<std::string> pos;
    for(int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        if(a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; ++i; }
        else pos.push_back(a);
    }
    if(cmd == "list") { for(Test *t : registry()) std::printf("%s %g\n", t->name, t->weight); return 0; }
    if(cmd == "replay" && pos.size() == 1)
    {
        Test *t; std::vector<std::uint64_t> c;
        if(!read_replay(pos[0].c_str(), t, c)) { std::fprintf(stderr, "cannot read replay file\n"); return 2; }
        Outcome r = run_forked(*t, &c, 0, false, true, CPU_LIMIT);
        std::printf("test=%s verdict=%s\n  %s\n  input: %s\n", t->name, r.v == Fail ? "FAIL" : "pass", r.msg.c_str(), r.notes.c_str());
        return r.v == Fail ? 1 : 0;
    }
    if(cmd == "fuzzmirror" && pos.size() == 2) // turn a fuzzer's mirror file into a replay file
    {
        std::ifstream in(pos[0].c_str(), std::ios::binary);
        std::vector<std::uint64_t> m(Src::max_choices + 2);
        in.read((char *)m.data(), m.size() * 8);
        if(!in || m[0] > Src::max_choices || m[Src::max_choices + 1] >= registry().size()) return 2;
        std::vector<std::uint64_t> c(m.begin() + 1, m.begin() + 1 + m[0]);
        return confirm_and_report(*registry()[m[Src::max_choices + 1]], &c, 0, pos[1], 60) ? 1 : 0;
    }
    if(cmd != "run") { std::fprintf(stderr, "usage\n"); return 2; }

    std::uint64_t seed = o.count("seed") ? std::strtoull(o["seed"].c_str(), 0, 10) : 1;
    double cases = o.count("cases") ? std::atof(o["cases"].c_str()) : 10000;
    double cap = o.count("cap") ? std::atof(o["cap"].c_str()) : 300;
    int jobs = o.count("jobs") ? std::atoi(o["jobs"].c_str()) : 8;
    std::string out = o["out"], replay_out = o["replay-out"];
    std::vector<Test *> tests = registry();
    std::sort(tests.begin(), tests.end(), [](Test *a, Test *b) { return std::string(a->name) < b->name; });
    if(!o.count("only"))
        tests.erase(std::remove_if(tests.begin(), tests.end(), [&](Test *t) { return t->weight <= 0; }), tests.end());
    else
        tests.erase(std::remove_if(tests.begin(), tests.end(), [&](Test *t) { return o["only"] != t->name; }), tests.end());
    double wsum = 1e-9; for(Test *t : tests) wsum += t->weight;
    std::vector<std::uint64_t> budget;
    for(Test *t : tests) budget.push_back((std::uint64_t)std::max(200.0, cases * t->weight / wsum));

    double start = now();
    Slot *slots = (Slot *)mmap(0, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile int *stop = (volatile int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(jobs);
    std::vector<std::string> files(jobs);
    std::string base = out + ".w";
    for(int w = 0; w < jobs; ++w)
    {
        files[w] = base + std::to_string(w);
        slots[w].in_case = 0;
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0)
        {
            if(!std::getenv("PBT_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
            signal(SIGPROF, SIG_DFL);
            struct Stat { std::uint64_t run, disc, nontriv; std::map<std::string, std::uint64_t> labels; std::vector<std::uint64_t> hashes; double secs; std::uint64_t maxlen; std::vector<std::string> samples; };
            std::vector<Stat> st(tests.size(), Stat{0, 0, 0, {}, {}, 0, 0, {}});
            std::vector<std::uint64_t> next(tests.size(), (std::uint64_t)w);
            bool left = true;
            // interleave the tests in slices so that a time cap cuts all of them evenly
            for(int slice = 0; slice < 20 && left && !*stop; ++slice)
            {
                left = false;
                for(std::size_t k = 0; k < tests.size() && !*stop; ++k)
                {
                    std::uint64_t end = slice == 19 ? budget[k] : budget[k] * (slice + 1) / 20;
                    double t0 = now();
                    for(; next[k] < end && !*stop; next[k] += jobs)
                    {
                        slots[w].idx = next[k]; slots[w].test = (int)k; slots[w].in_case = 1;
                        arm_cpu_timer(CPU_LIMIT);
                        Src s(case_seed(seed, tests[k]->name, next[k]));
                        bool sample = st[k].samples.size() < 2 && slice >= 1;
                        s.set_noting(sample);
                        std::string msg;
                        Verdict v = run_one(*tests[k], s, msg);
                        slots[w].in_case = 0;
                        ++st[k].run;
                        if(v == Fail) { slots[w].in_case = 2; *stop = 1; _exit(10); }
                        if(v == Discarded) ++st[k].disc;
                        else if(s.is_nontrivial())
                        {
                            ++st[k].nontriv;
                            std::uint64_t h = 1469598103934665603ULL;
                            for(std::uint64_t c : s.choices()) { h ^= c; h *= 1099511628211ULL; h ^= h >> 29; }
                            st[k].hashes.push_back(h);
                            if(sample) st[k].samples.push_back(s.notes());
                        }
                        for(char const *l : s.labels()) ++st[k].labels[l];
                        st[k].maxlen = std::max<std::uint64_t>(st[k].maxlen, s.choices().size());
                        if(now() - start > cap) break;
                    }
                    st[k].secs += now() - t0;
                    if(next[k] < budget[k]) left = true;
                    if(now() - start > cap) { left = false; break; }
                }
            }
            arm_cpu_timer(0);
            std::ofstream f(files[w].c_str());
            for(std::size_t k = 0; k < tests.size(); ++k)
            {
                f << "T " << k << ' ' << st[k].run << ' ' << st[k].disc << ' ' << st[k].nontriv << ' ' << st[k].secs << ' ' << st[k].maxlen << "\n";
                for(auto &l : st[k].labels) f << "L " << l.second << ' ' << l.first << "\n";
                for(auto &sm : st[k].samples) { std::string q = sm.substr(0, 1500); for(char &ch : q) if(ch == '\n') ch = ' '; f << "S " << q << "\n"; }
                f << "H " << st[k].hashes.size(); for(auto h : st[k].hashes) f << ' ' << h; f << "\n";
            }
            f.close();
            _exit(0);
        }
        pids[w] = pid;
    }
    // wait; collect failures
    struct Found { int test; std::uint64_t idx; };
    std::vector<Found> found; bool worker_trouble = false;
    for(int left = jobs; left > 0;)
    {
        int st; pid_t p = waitpid(-1, &st, 0);
        if(p < 0) break;
        for(int w = 0; w < jobs; ++w) if(pids[w] == p)
        {
            --left;
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            *stop = 1;
            if(slots[w].in_case) found.push_back(Found{slots[w].test, slots[w].idx});
            else worker_trouble = true;
        }
    }
    double explored = now() - start;
    std::sort(found.begin(), found.end(), [](Found const &a, Found const &b) { return a.test != b.test ? a.test < b.test : a.idx < b.idx; });
    int violations = 0, unconfirmed = 0;
    for(Found const &f : found)
    {
        if(violations) break;
        if(confirm_and_report(*tests[f.test], 0, case_seed(seed, tests[f.test]->name, f.idx), replay_out, 40)) ++violations;
        else { ++unconfirmed; std::printf("UNCONFIRMED test=%s case=%llu (did not fail again)\n", tests[f.test]->name, (unsigned long long)f.idx); }
    }
    // merge statistics
    struct M { std::uint64_t run, disc, nontriv, maxlen; double secs; std::map<std::string, std::uint64_t> labels; std::set<std::uint64_t> hashes; std::vector<std::string> samples; };
    std::vector<M> ms(tests.size(), M{0, 0, 0, 0, 0, {}, {}, {}});
    for(int w = 0; w < jobs; ++w)
    {
        std::ifstream f(files[w].c_str()); std::string line; std::size_t k = 0;
        while(std::getline(f, line))
        {
            std::istringstream l(line); std::string c; l >> c;
            if(c == "T") { std::uint64_t a, b, d, mx; double sec; l >> k >> a >> b >> d >> sec >> mx; ms[k].run += a; ms[k].disc += b; ms[k].nontriv += d; ms[k].secs += sec; ms[k].maxlen = std::max(ms[k].maxlen, mx); }
            else if(c == "L") { std::uint64_t n; l >> n; std::string r; std::getline(l, r); ms[k].labels[r.substr(1)] += n; }
            else if(c == "S") { if(ms[k].samples.size() < 3) ms[k].samples.push_back(line.substr(2)); }
            else if(c == "H") { std::uint64_t n, h; l >> n; while(l >> h) ms[k].hashes.insert(h); }
        }
        unlink(files[w].c_str());
    }
    std::ofstream j(out.c_str());
    std::uint64_t tot = 0, dist = 0;
    j << "{\"tests\": [";
    for(std::size_t k = 0; k < tests.size(); ++k)
    {
        tot += ms[k].run; dist += ms[k].hashes.size();
        j << (k ? ",\n" : "\n") << " {\"name\": " << json_str(tests[k]->name) << ", \"cases\": " << ms[k].run << ", \"budget\": " << budget[k] << ", \"discarded\": " << ms[k].disc
          << ", \"nontrivial\": " << ms[k].nontriv << ", \"distinct_nontrivial\": " << ms[k].hashes.size() << ", \"cpu_s\": " << ms[k].secs << ", \"max_choices\": " << ms[k].maxlen
          << ", \"rule\": " << json_str(tests[k]->rule) << ", \"labels\": {";
        bool first = true;
        for(auto &l : ms[k].labels) { j << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
        j << "}, \"samples\": [";
        for(std::size_t i = 0; i < ms[k].samples.size(); ++i) j << (i ? ", " : "") << json_str(ms[k].samples[i]);
        j << "]}";
    }
    j << "],\n\"cases\": " << tot << ", \"distinct_nontrivial\": " << dist << ", \"violations\": " << violations << ", \"unconfirmed\": " << unconfirmed
      << ", \"explore_s\": " << explored << "}\n";
    j.close();
    if(violations) return 1;
    if(worker_trouble && found.empty()) { std::printf("worker died outside a case\n"); return 2; }
    return 0;
}
#endif
