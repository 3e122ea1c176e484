#include "dst.hh"
#include "seams.hh"
#include "disk.hh"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace dst {

uint64_t Rng::mix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next() {
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}

std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap; va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

void Plan::set(const std::string& k, double v) {
    for (auto& c : cfg) if (c.first == k) { c.second = v; return; }
    cfg.push_back(std::make_pair(k, v));
}
double Plan::get(const std::string& k, double def) const {
    for (auto& c : cfg) if (c.first == k) return c.second;
    return def;
}
std::string Plan::text() const {
    std::ostringstream o;
    o << "scenario " << scenario << "\nseed " << seed << "\n";
    char b[64];
    for (auto& c : cfg) { snprintf(b, sizeof b, "%.17g", c.second); o << "cfg " << c.first << " " << b << "\n"; }
    for (auto& p : ops) {
        o << "op " << p.kind;
        for (double v : p.a) { snprintf(b, sizeof b, "%.17g", v); o << " " << b; }
        o << "\n";
    }
    return o.str();
}
bool Plan::parse(const std::string& text, Plan& out) {
    std::istringstream in(text);
    std::string line;
    out = Plan();
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w; l >> w;
        if (w == "scenario") l >> out.scenario;
        else if (w == "seed") l >> out.seed;
        else if (w == "cfg") { std::string k, v; l >> k >> v; out.set(k, strtod(v.c_str(), 0)); }
        else if (w == "op") {
            Op op; std::string v; l >> op.kind;
            while (l >> v) op.a.push_back(strtod(v.c_str(), 0));
            out.ops.push_back(op);
        }
    }
    return !out.scenario.empty();
}

uint64_t Ctx::hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
void Ctx::log(const std::string& s) {
    ++events;
    for (unsigned char c : s) { hash ^= c; hash *= 1099511628211ULL; }
    hash ^= 10; hash *= 1099511628211ULL;
    if (verbose) fprintf(stderr, "  %s\n", s.c_str());
}
void Ctx::logd(const char* tag, double v) {
    ++events;
    uint64_t b; memcpy(&b, &v, sizeof b);
    if (v != v) b = 0x7ff8000000000000ULL;
    for (const char* c = tag; *c; ++c) { hash ^= (unsigned char)*c; hash *= 1099511628211ULL; }
    for (int i = 0; i < 8; ++i) { hash ^= (b >> (8 * i)) & 0xff; hash *= 1099511628211ULL; }
    if (verbose) fprintf(stderr, "  %s = %.15g\n", tag, v);
}
void Ctx::violate(const std::string& what) { if (muted) return; log("VIOLATION " + what); throw Violation{what}; }

// Known findings: lines "property=<id> key=<key> <text>" (a '#' or 'fixed:' line suppresses nothing).
static std::map<std::string, std::string> gKnown;
static void loadKnown(const std::string& file, const std::string& id) {
    std::ifstream in(file.c_str());
    std::string line;
    while (std::getline(in, line)) {
        if (line.compare(0, 9, "property=") != 0) continue;
        std::istringstream l(line);
        std::string a, b; l >> a >> b;
        if (a != "property=" + id || b.compare(0, 4, "key=") != 0) continue;
        std::string rest; std::getline(l, rest);
        gKnown[b.substr(4)] = rest;
    }
}

void Ctx::finding(const std::string& key, const std::string& what) {
    if (muted) return;
    if (gKnown.count(key)) probe("known." + key); else violate(what);
}

static const Scenario* findScenario(const Property& p, const std::string& n) {
    for (auto& s : p.scenarios) if (n == s.name) return &s;
    return 0;
}

std::string runPlan(const Property& p, const Plan& plan, Ctx& ctx) {
    const Scenario* s = findScenario(p, plan.scenario);
    if (!s) return "harness: unknown scenario " + plan.scenario;
    std::srand(1); seams() = Seams(); disk() = Disk();
    try {
        s->execute(plan, ctx);
    } catch (const Violation& v) {
        return v.what.empty() ? std::string("unnamed: ") : v.what;
    } catch (const std::exception& e) {
        return std::string("unexpected-exception: ") + e.what();
    } catch (...) {
        return "unexpected-exception: (non-standard exception type)";
    }
    return "";
}

static std::string sigOf(const std::string& v) { return v.substr(0, v.find(':')); }

static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static const int RUN_CPU_LIMIT = 40;  // CPU seconds allowed to one run before it counts as a hang

static void armWatchdog(int sec) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, 0);
}

static void quiet() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1); close(fd);
    std::cout.flush();
    static std::ofstream nul("/dev/null");
    std::cout.rdbuf(nul.rdbuf());
    std::cerr.rdbuf(nul.rdbuf());
}

struct Agg {
    uint64_t runs, steps, checks, events, nontrivial, twice, mismatch;
    double simTime;
    std::map<std::string, long> faults, probes, scen;
    std::map<std::string, long> faultRuns;
    std::vector<uint64_t> states, hashes;
    Agg() : runs(0), steps(0), checks(0), events(0), nontrivial(0), twice(0), mismatch(0), simTime(0) {}
};

struct Shared {
    std::atomic<long> minViol;       // smallest violating run index seen
    long              current[256];  // run index in progress per worker
    char              what[256][1024];
    long              violIdx[256];
};

static uint64_t runSeed(uint64_t base, long i) {
    Rng r(base * 0x9E3779B97F4A7C15ULL + 0x1234567ULL);
    uint64_t x = r.next() ^ (static_cast<uint64_t>(i) * 0xD1B54A32D192ED03ULL);
    Rng r2(x);
    return r2.next() >> 11;   // 53 bits: exact in a double
}

static void makePlan(const Property& p, uint64_t seed, bool deep, Plan& plan, const char* only) {
    Rng rng(seed);
    double tot = 0;
    for (auto& s : p.scenarios) tot += s.weight;
    double x = rng.u() * tot;
    const Scenario* sc = &p.scenarios.back();
    for (auto& s : p.scenarios) { if (x < s.weight) { sc = &s; break; } x -= s.weight; }
    if (only) sc = findScenario(p, only);
    plan.scenario = sc->name;
    plan.seed = seed;
    sc->generate(rng, plan, deep);
}

template <class K, class V> static void putMap(std::ostream& o, const std::map<K, V>& m) {
    o << m.size() << "\n";
    for (auto& e : m) o << e.first << " " << e.second << "\n";
}
template <class V> static void getMap(std::istream& in, std::map<std::string, V>& m) {
    size_t n; in >> n;
    for (size_t i = 0; i < n; ++i) { std::string k; V v; in >> k >> v; m[k] += v; }
}

static int worker(const Property& p, int w, int jobs, long runs, uint64_t base, bool deep, double deadline,
                  Shared* sh, const std::string& outFile, const char* only) {
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6ULL << 30; setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    quiet();
    Agg g;
    std::set<uint64_t> states, hashes;
    for (long i = w; i < runs; i += jobs) {
        if (i > sh->minViol.load()) break;
        if (nowS() > deadline) break;
        sh->current[w] = i;
        Plan plan;
        makePlan(p, runSeed(base, i), deep, plan, only);
        Ctx ctx(false);
        armWatchdog(RUN_CPU_LIMIT);
        std::string v = runPlan(p, plan, ctx);
        armWatchdog(0);
        if (!v.empty()) {
            snprintf(sh->what[w], sizeof sh->what[w], "%s", v.c_str());
            sh->violIdx[w] = i;
            long cur = sh->minViol.load();
            while (i < cur && !sh->minViol.compare_exchange_weak(cur, i)) {}
            break;
        }
        if (i % 61 == static_cast<long>(base % 61)) {
            Ctx c2(false);
            armWatchdog(RUN_CPU_LIMIT);
            std::string v2 = runPlan(p, plan, c2);
            armWatchdog(0);
            ++g.twice;
            if (c2.hash != ctx.hash || v2 != v) { ++g.mismatch; g.probes["same-seed-mismatch-run-" + std::to_string(i)]++; }
        }
        ++g.runs; g.steps += ctx.steps; g.checks += ctx.checksDone; g.events += ctx.events; g.simTime += ctx.simTime;
        g.scen[plan.scenario]++;
        for (auto& f : ctx.faults) { g.faults[f.first] += f.second; g.faultRuns[f.first]++; }
        for (auto& f : ctx.probes) g.probes[f.first] += f.second;
        if (!ctx.faults.empty() && ctx.checksDone > 0) { ++g.nontrivial; hashes.insert(ctx.hash); }
        if (states.size() < 3000000) states.insert(ctx.states.begin(), ctx.states.end());
    }
    sh->current[w] = -1;
    std::ofstream o(outFile.c_str());
    o << g.runs << " " << g.steps << " " << g.checks << " " << g.events << " " << g.nontrivial << " " << g.twice << " " << g.mismatch << " ";
    o.precision(17); o << g.simTime << "\n";
    putMap(o, g.faults); putMap(o, g.faultRuns); putMap(o, g.probes); putMap(o, g.scen);
    o << states.size() << "\n"; for (uint64_t s : states) o << s << "\n";
    o << hashes.size() << "\n"; for (uint64_t s : hashes) o << s << "\n";
    o.flush();
    return o.good() ? 0 : 3;
}

// Runs a plan in a forked child; returns violation text (signals and hangs included).
static std::string runForked(const Property& p, const Plan& plan, int cpuLimit) {
    int fd[2];
    if (pipe(fd)) return "harness: pipe";
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6ULL << 30; setrlimit(RLIMIT_AS, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        quiet();
        Ctx ctx(false);
        armWatchdog(cpuLimit);
        std::string v = runPlan(p, plan, ctx);
        armWatchdog(0);
        char h[32]; snprintf(h, sizeof h, "%016llx ", (unsigned long long)ctx.hash);
        std::string r = h + v;
        ssize_t n = write(fd[1], r.data(), r.size()); (void)n;
        _exit(0);
    }
    close(fd[1]);
    std::string r; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGPROF) return fmt("hang: the run used more than %d s of CPU", cpuLimit);
        return fmt("crash: the process died with signal %d", WTERMSIG(st));
    }
    return r.size() >= 17 ? r.substr(17) : std::string("crash: the process exited inside the run");
}

static Plan minimise(const Property& p, const Plan& orig, const std::string& sig, double budget, int& tried) {
    Plan best = orig;
    double end = nowS() + budget;
    tried = 0;
    size_t chunk = std::max<size_t>(1, best.ops.size() / 2);
    while (chunk >= 1 && nowS() < end) {
        bool any = false;
        for (size_t i = 0; i < best.ops.size() && nowS() < end;) {
            Plan c = best;
            size_t e = std::min(best.ops.size(), i + chunk);
            c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
            ++tried;
            if (sigOf(runForked(p, c, 5)) == sig) { best = c; any = true; } else i = e;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > best.ops.size()) chunk = chunk > 1 ? chunk / 2 : 1;
        if (best.ops.empty()) break;
    }
    return best;
}

static std::string jsonStr(const std::string& s) {
    std::string o = "\"";
    for (char ch : s) {
        unsigned char c = ch;
        if (c == '"' || c == '\\') { o += '\\'; o += ch; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += ch;
    }
    return o + "\"";
}
static std::string jsonMap(const std::map<std::string, long>& m) {
    std::string o = "{"; bool f = true;
    for (auto& e : m) { o += (f ? "" : ", ") + jsonStr(e.first) + ": " + std::to_string(e.second); f = false; }
    return o + "}";
}
static std::string jsonList(const std::vector<std::string>& v) {
    std::string o = "["; bool f = true;
    for (auto& e : v) { o += (f ? "" : ", ") + jsonStr(e); f = false; }
    return o + "]";
}
static std::string jnum(double v) { char b[64]; snprintf(b, sizeof b, "%.6g", v); return b; }

static int replay(const std::string& file, const std::vector<Property>& props, bool verbose) {
    std::ifstream in(file.c_str());
    std::stringstream ss; ss << in.rdbuf();
    std::string text = ss.str(), id;
    { std::istringstream l(text); std::string line; while (std::getline(l, line)) if (line.compare(0, 9, "property ") == 0) id = line.substr(9); }
    Plan plan;
    if (!Plan::parse(text, plan)) { fprintf(stderr, "cannot parse %s\n", file.c_str()); return 2; }
    for (auto& p : props) if (id == p.id) {
        if (!verbose) {
            std::string v = runForked(p, plan, RUN_CPU_LIMIT);
            if (v.empty()) { printf("replay %s: no violation\n", file.c_str()); return 0; }
            printf("replay %s: %s\n", file.c_str(), v.c_str());
            return 1;
        }
        Ctx ctx(true);
        int keep = dup(1); quiet();
        std::string v = runPlan(p, plan, ctx);
        dup2(keep, 1);
        fprintf(stderr, "hash %016llx result: %s\n", (unsigned long long)ctx.hash, v.empty() ? "ok" : v.c_str());
        return v.empty() ? 0 : 1;
    }
    fprintf(stderr, "unknown property %s\n", id.c_str());
    return 2;
}

std::vector<Property>& registry() { static std::vector<Property> r; return r; }

int dstMain(int argc, char** argv, const std::vector<Property>& props) {
    std::string id, tier = "quick", evidence, replayFile, replayDir = "replays", tmp, known, only, self = argv[0];
    uint64_t seed = 1; long runs = -1; int jobs = 8; double cap = -1; bool verbose = false, gen = false; long genIdx = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") tier = val();
        else if (a == "--runs") runs = atol(val().c_str());
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay") replayFile = val();
        else if (a == "--replay-dir") replayDir = val();
        else if (a == "--known") known = val();
        else if (a == "--scenario") only = val();
        else if (a == "--verbose") verbose = true;
        else if (a == "--gen") { gen = true; genIdx = atol(val().c_str()); }
        else if (a == "--list") { for (auto& p : props) printf("%s\n", p.id); return 0; }
        else id = a;
    }
    if (!known.empty() && !replayFile.empty()) { std::ifstream in(replayFile.c_str()); std::string w, pid; in >> w >> pid; loadKnown(known, pid); }
    if (!replayFile.empty()) return replay(replayFile, props, verbose);
    const Property* p = 0;
    for (auto& q : props) if (id == q.id) p = &q;
    if (!p) { fprintf(stderr, "unknown property '%s'\n", id.c_str()); return 2; }
    const bool deep = tier == "thorough";
    if (gen) {
        Plan plan; makePlan(*p, runSeed(seed, genIdx), deep, plan, only.empty() ? 0 : only.c_str());
        printf("property %s\n%s", p->id, plan.text().c_str());
        return 0;
    }
    loadKnown(known, p->id);
    if (runs < 0) runs = deep ? p->thoroughRuns : p->quickRuns;
    if (cap < 0) cap = deep ? 1500 : 240;
    jobs = std::max(1, std::min(jobs, 256));
    char tdir[] = "/tmp/dst.XXXXXX";
    if (!mkdtemp(tdir)) { perror("mkdtemp"); return 2; }
    tmp = tdir;
    Shared* sh = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (&sh->minViol) std::atomic<long>(1L << 60);
    for (int w = 0; w < jobs; ++w) { sh->current[w] = -1; sh->violIdx[w] = -1; sh->what[w][0] = 0; }
    const double t0 = nowS();
    fflush(0);
    std::vector<pid_t> pids;
    for (int w = 0; w < jobs; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            _exit(worker(*p, w, jobs, runs, seed, deep, t0 + cap, sh, tmp + "/w" + std::to_string(w), only.empty() ? 0 : only.c_str()));
        }
        pids.push_back(pid);
    }
    bool harness = false;
    for (int w = 0; w < jobs; ++w) {
        // Reap in completion order so that a crashed worker stops the others early.
        int st; pid_t pid = waitpid(-1, &st, 0);
        int k = 0; while (k < jobs && pids[k] != pid) ++k;
        if (k == jobs) { --w; continue; }
        if (WIFSIGNALED(st) && sh->current[k] >= 0) {
            long i = sh->current[k];
            if (WTERMSIG(st) == SIGPROF) snprintf(sh->what[k], sizeof sh->what[k], "hang: the run used more than %d s of CPU", RUN_CPU_LIMIT);
            else snprintf(sh->what[k], sizeof sh->what[k], "crash: the process died with signal %d", WTERMSIG(st));
            sh->violIdx[k] = i;
            long cur = sh->minViol.load();
            while (i < cur && !sh->minViol.compare_exchange_weak(cur, i)) {}
        } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            if (sh->current[k] >= 0) {
                long i = sh->current[k];
                snprintf(sh->what[k], sizeof sh->what[k], "crash: the process exited inside the run");
                sh->violIdx[k] = i;
                long cur = sh->minViol.load();
                while (i < cur && !sh->minViol.compare_exchange_weak(cur, i)) {}
            } else harness = true;
        }
    }
    Agg g;
    std::set<uint64_t> states, hashes;
    for (int w = 0; w < jobs; ++w) {
        std::ifstream in((tmp + "/w" + std::to_string(w)).c_str());
        if (!in || in.peek() == std::ifstream::traits_type::eof()) continue;
        Agg a;
        in >> a.runs >> a.steps >> a.checks >> a.events >> a.nontrivial >> a.twice >> a.mismatch >> a.simTime;
        g.runs += a.runs; g.steps += a.steps; g.checks += a.checks; g.events += a.events; g.nontrivial += a.nontrivial;
        g.twice += a.twice; g.mismatch += a.mismatch; g.simTime += a.simTime;
        getMap(in, g.faults); getMap(in, g.faultRuns); getMap(in, g.probes); getMap(in, g.scen);
        size_t n = 0; uint64_t x; in >> n; for (size_t i = 0; i < n; ++i) { in >> x; states.insert(x); }
        in >> n; for (size_t i = 0; i < n; ++i) { in >> x; hashes.insert(x); }
    }
    for (int w = 0; w < jobs; ++w) unlink((tmp + "/w" + std::to_string(w)).c_str());
    rmdir(tmp.c_str());
    const double searchWall = nowS() - t0;

    // A finding listed in the known-findings file is counted by the scenario as probe "known.<key>".
    for (auto& k : gKnown) {
        (void)k;
        printf("KNOWN-FINDING: property=%s key=%s%s (occurrences this run: %ld)\n", p->id, k.first.c_str(), k.second.c_str(),
               g.probes.count("known." + k.first) ? g.probes["known." + k.first] : 0L);
    }

    long bad = sh->minViol.load();
    bool violated = bad < (1L << 60);
    std::string what, path, replayNote;
    bool reproduced = false;
    int tried = 0;
    if (violated) {
        for (int w = 0; w < jobs; ++w) if (sh->violIdx[w] == bad) what = sh->what[w];
        Plan plan;
        makePlan(*p, runSeed(seed, bad), deep, plan, only.empty() ? 0 : only.c_str());
        fprintf(stderr, "run %ld (seed %llu, scenario %s): %s\n", bad, (unsigned long long)plan.seed, plan.scenario.c_str(), what.c_str());
        const std::string sig = sigOf(what);
        Plan min = sig == "hang" ? plan : minimise(*p, plan, sig, 25.0, tried);
        mkdir(replayDir.c_str(), 0777);
        path = replayDir + "/" + p->id + "-" + std::to_string(plan.seed) + ".plan";
        for (int attempt = 0; attempt < 2; ++attempt) {
            const Plan& c = attempt == 0 ? min : plan;
            std::string v = runForked(*p, c, RUN_CPU_LIMIT);
            { std::ofstream o(path.c_str());
              o << "property " << p->id << "\n" << c.text() << "# violation " << (v.empty() ? what : v) << "\n"
                << "# found by run " << bad << " of VERIF_SEED " << seed << "; minimised from " << plan.ops.size() << " to " << c.ops.size()
                << " events in " << tried << " trials\n# replay: " << self << " --replay " << path << "\n"; }
            // Gate: a fresh process must reproduce it.
            std::string cmd = self + " --known '" + known + "' --replay " + path + " >/dev/null 2>&1";
            int rc = system(cmd.c_str());
            if (WIFEXITED(rc) && WEXITSTATUS(rc) == 1) { replayNote = "reproduced in a fresh process"; reproduced = true; break; }
            replayNote = "NOT reproduced in a fresh process";
        }
        fprintf(stderr, "replay file %s: %s (%zu -> %zu events)\n", path.c_str(), replayNote.c_str(), plan.ops.size(), min.ops.size());
    }
    const double wall = nowS() - t0;
    if (!evidence.empty()) {
        std::vector<std::string> samples;
        for (int i = 0; i < 2; ++i) {
            Plan s; makePlan(*p, runSeed(seed, i), deep, s, only.empty() ? 0 : only.c_str());
            std::string t = s.text();
            if (t.size() > 1500) t = t.substr(0, 1500) + "...";
            samples.push_back(t);
        }
        if (violated) { std::ifstream in(path.c_str()); std::stringstream ss; ss << in.rdbuf(); samples.push_back(ss.str().substr(0, 3000)); }
        std::ofstream o(evidence.c_str());
        o << "{\"property\": " << jsonStr(p->id) << ", \"tier\": " << jsonStr(tier) << ", \"seed\": " << seed
          << ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": " << g.runs
          << ", \"distinct_nontrivial\": " << hashes.size()
          << ",\n  \"rule\": " << jsonStr(std::string("One evaluation is one simulated run from one derived seed (plan of configuration, operations, schedule and faults). Non-trivial: at least one fault or disturbance took effect and at least one oracle was evaluated; distinct by hash of the whole event log. ") + p->rule)
          << ",\n  \"samples\": " << jsonList(samples)
          << ",\n  \"runs_requested\": " << runs
          << ", \"runs_per_hour\": " << jnum(g.runs / std::max(1e-3, searchWall) * 3600.0)
          << ", \"seeds_per_hour\": " << jnum(g.runs / std::max(1e-3, searchWall) * 3600.0)
          << ", \"simulated_seconds\": " << jnum(g.simTime) << ", \"simulated_steps\": " << g.steps
          << ", \"oracle_evaluations\": " << g.checks << ", \"events_logged\": " << g.events
          << ",\n  \"faults_injected\": " << jsonMap(g.faults) << ",\n  \"runs_with_fault\": " << jsonMap(g.faultRuns)
          << ",\n  \"probes\": " << jsonMap(g.probes) << ",\n  \"scenarios\": " << jsonMap(g.scen)
          << ",\n  \"distinct_states\": " << states.size() << ", \"distinct_states_measure\": " << jsonStr(p->stateMeasure)
          << ",\n  \"same_seed_twice\": {\"compared\": " << g.twice << ", \"mismatched\": " << g.mismatch << "}"
          << ",\n  \"real_components\": " << jsonList(p->realParts) << ",\n  \"stub_components\": " << jsonList(p->stubParts)
          << (violated ? ",\n  \"violation\": " + jsonStr(what) + ", \"replay\": " + jsonStr(path) + ", \"replay_gate\": " + jsonStr(replayNote) : std::string())
          << "},\n \"assumptions\": " << jsonList(p->assumptions) << ", \"wall_s\": " << jnum(wall)
          << ", \"violations\": " << (violated ? 1 : 0) << "}\n";
    }
    printf("%s tier=%s seed=%llu runs=%llu steps=%llu sim_time=%.4g s oracle_evaluations=%llu distinct=%zu states=%zu twice=%llu/%llu wall=%.1f s\n",
           p->id, tier.c_str(), (unsigned long long)seed, (unsigned long long)g.runs, (unsigned long long)g.steps, g.simTime,
           (unsigned long long)g.checks, hashes.size(), states.size(), (unsigned long long)g.mismatch, (unsigned long long)g.twice, searchWall);
    if (violated && !reproduced) {
        fprintf(stderr, "%s\nthe violation did not replay: treated as an error of the check\n", what.c_str());
        return 2;
    }
    if (violated) {
        printf("%s\n", what.c_str());
        printf("VIOLATION property=%s replay=%s\n", p->id, path.c_str());
        return 1;
    }
    if (harness || g.runs == 0) { fprintf(stderr, "harness failure\n"); return 2; }
    if (g.mismatch) { fprintf(stderr, "same seed gave two different executions: the simulator is not deterministic\n"); return 2; }
    return 0;
}

} // namespace dst
