// L01: the solver's minor step log. The network steps in one simulated thread, the file writer runs in another;
// the disk may refuse. Each file must hold exactly the minor steps that the links themselves saw.
#include "basicnet.hh"
#include "fiber.hh"
#include "disk.hh"
#include <cerrno>
#include <unistd.h>
#include <deque>
#include <set>
namespace dst {
namespace {
typedef GunnsMinorStepLogInputData In;
struct Frame { int major, minor; std::string res; struct L { int link; int vote; double p0, p1, g, src; }; std::vector<L> l; std::vector<double> all; bool vague; std::set<int> asked; };
struct Written { std::string name, text; bool opened; };
struct Expect { std::string name; std::vector<Frame> frames; };
std::vector<std::string> cells(const std::string& line) { std::vector<std::string> v; size_t i = 0; for (;;) { const size_t j = line.find(", ", i); v.push_back(line.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) return v; i = j + 2; } }
const char* voteName(int v) { return v == GunnsBasicLink::CONFIRM ? "CONFIRM" : v == GunnsBasicLink::REJECT ? "REJECT" : "DELAY"; }
bool near6(double a, double b) { return a == b || std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-12; }

void judge(const Expect& e, const Written& w, BasicNet& bn, Ctx& ctx) {
    const std::string nm = w.name.substr(w.name.rfind('/') + 1), en = e.name.substr(e.name.rfind('/') + 1);
    ctx.check(e.frames.empty() || w.name == e.name, fmt("log: the file is named %s, not %s", nm.c_str(), en.c_str()));
    if (!w.opened) { ctx.probe("log_lost_to_disk"); return; }
    std::vector<std::string> rows; size_t i = 0; while (i < w.text.size()) { size_t j = w.text.find('\n', i); if (j == std::string::npos) j = w.text.size(); rows.push_back(w.text.substr(i, j - i)); i = j + 1; }
    ctx.check(!rows.empty() && rows.size() - 1 == e.frames.size(), fmt("log: %s holds %zu minor steps, %zu were recorded", nm.c_str(), rows.empty() ? 0 : rows.size() - 1, e.frames.size()));
    const size_t cols = cells(rows[0]).size(); const int n = bn.n;
    std::vector<size_t> at; size_t c = 4 + 2 * n; for (auto l : bn.links) { at.push_back(c); c += 1 + l->getNumberPorts() * (l->getNumberPorts() + 1); }
    ctx.check(cols == c, fmt("log: %s has %zu columns, the network needs %zu", nm.c_str(), cols, c));
    for (size_t r = 1; r < rows.size(); ++r) {
        const std::vector<std::string> v = cells(rows[r]); const Frame& f = e.frames[r - 1];
        ctx.check(v.size() == c, fmt("log: %s row %zu has %zu columns, its header %zu", nm.c_str(), r, v.size(), c));
        ctx.check(v[0] == std::to_string(f.major) && v[1] == std::to_string(f.minor), fmt("log: %s row %zu is major step %s minor step %s, recorded then were %d and %d", nm.c_str(), r, v[0].c_str(), v[1].c_str(), f.major, f.minor));
        if (!f.res.empty()) ctx.check(v[3] == f.res, fmt("log: major step %d minor step %d is logged as %s, it was %s", f.major, f.minor, v[3].c_str(), f.res.c_str()));
        for (size_t i = 0; i < bn.links.size(); ++i) if (!f.asked.count(i)) ctx.check(v[at[i]] == "CONFIRM", fmt("log: major step %d minor step %d: link %zu is logged as %s, it was not asked", f.major, f.minor, i, v[at[i]].c_str()));
        if (f.vague) continue;
        for (size_t k = 0; k < f.all.size(); ++k) ctx.check(near6(atof(v[4 + k].c_str()), f.all[k]), fmt("log: major step %d minor step %d: node %zu is logged at %s, it was at %.9g", f.major, f.minor, k, v[4 + k].c_str(), f.all[k]));
        for (auto& l : f.l) {
            const size_t a = at[l.link]; const int* map = bn.links[l.link]->getNodeMap();
            if (f.all.empty()) for (int q = 0; q < 2; ++q) if (map[q] < n) ctx.check(near6(atof(v[4 + map[q]].c_str()), q ? l.p1 : l.p0), fmt("log: major step %d minor step %d: node %d is logged at %s, it was at %.9g", f.major, f.minor, map[q], v[4 + map[q]].c_str(), q ? l.p1 : l.p0));
            if (l.vote >= 0) ctx.check(v[a] == voteName(l.vote), fmt("log: major step %d minor step %d: link %d is logged as %s, it said %s", f.major, f.minor, l.link, v[a].c_str(), voteName(l.vote)));
            ctx.check(near6(atof(v[a + 1].c_str()), l.g) && near6(atof(v[a + 2].c_str()), -l.g), fmt("log: major step %d minor step %d: the admittance of link %d is logged as %s, it was %.9g", f.major, f.minor, l.link, v[a + 1].c_str(), l.g));
            ctx.check(near6(atof(v[a + 5].c_str()), l.src), fmt("log: major step %d minor step %d: the source of link %d is logged as %s, it was %.9g", f.major, f.minor, l.link, v[a + 5].c_str(), l.src));
        }
    }
}
void run(const Plan& p, Ctx& ctx) {
    Scratch scratch; BasicNet bn, twin; GunnsMinorStepLog& log = bn.net.mStepLog;
    log.mInputData.mLogSteps = std::max(0, p.geti("logSteps", 3)); log.mInputData.mModeCommand = static_cast<In::LogCommands>(p.geti("logMode", 0) % 3); if (p.geti("path")) log.mInputData.mPath = scratch.path() + "/";
    if (log.mInputData.mLogSteps == 0) log.mInputData.mModeCommand = In::PAUSE;
    bn.build(p); twin.build(p); if (bn.links.empty()) return;
    bool linear = true; for (auto l : bn.links) linear = linear && !l->isNonLinear();
    const std::string prefix = (p.geti("path") ? scratch.path() + "/" : std::string("./")) + "net.mStepLog_";
    std::vector<Written> written; std::vector<Expect> expect; bool done = false; double openFail = 0; Rng faults(p.seed ^ 0x51ab); long yieldless = 0; (void)yieldless;
    disk().active = true;
    std::string opened;
    disk().onOpen = [&](const char* path, const char*) { opened = path; if (faults.u() < openFail) { ctx.fault("disk_open_failed"); return EACCES; } return 0; };
    Threads th(ctx, p); Threads::strings = true;
    th.spawn("network", [&]() {
        enum { PAUSED, AUTO, SNAP, WRITING } st = PAUSED; bool rec = false; std::deque<Frame> ring; size_t size = log.mInputData.mLogSteps; int lastMajor = 0; (void)lastMajor;
        for (auto& o : p.ops) {
            if (o.kind == "cmd") { log.mInputData.mModeCommand = static_cast<In::LogCommands>(std::abs(o.i(0)) % 4); ctx.fault("log_command"); }
            else if (o.kind == "disk") { openFail = o.d(0); }
            else if (o.kind == "wait") { Threads* t = Threads::current(); t->sleepNs(1000 * std::max(1, o.i(0))); }
            else if (o.kind == "size") {
                { Threads::Quiet q; log.mInputData.mLogSteps = std::max(0, o.i(0)); ctx.fault("log_resized"); }
                const bool busy = log.mState == GunnsMinorStepLog::WRITING_FILE; const unsigned before = log.mSize;
                log.updateFreeze();
                Threads::Quiet q;
                if (!busy) ctx.check(log.mSize == (log.mInputData.mLogSteps ? log.mInputData.mLogSteps : before), fmt("log: resized to %u minor steps, it keeps %u", log.mInputData.mLogSteps, log.mSize));
                if (log.mSize != before) { size = log.mSize; ring.clear(); }
            }
            else if (o.kind == "step") for (int m = 0; m < std::max(1, o.i(0)); ++m) {
                int cmd; bool wasWriting, maybe = false; { Threads::Quiet q; cmd = log.mInputData.mModeCommand; wasWriting = st == WRITING; ctx.check(!(wasWriting && written.size() == expect.size() && log.mState == GunnsMinorStepLog::WRITING_FILE), "log: its file is written, it still waits for the writer"); if (wasWriting) { if (log.mState != GunnsMinorStepLog::WRITING_FILE) st = PAUSED; else maybe = true; } }
                bn.trace.clear(); const long fails = bn.net.getConvergenceFailCount(); bool threw = false, decomp = false;
                try { bn.net.step(0.1); } catch (TsNumericalException&) { threw = true; ctx.fault("link_exception"); }
                Threads::Quiet q; ctx.advance(0.1); ctx.fault("step_with_writer", 1);
                try { twin.net.step(0.1); } catch (TsNumericalException&) {}
                for (int i = 0; i < bn.n; ++i) ctx.check(bn.net.getPotentialVector()[i] == twin.net.getPotentialVector()[i] || !finite(twin.net.getPotentialVector()[i]), fmt("log: node %d is at %.12g, without the log at %.12g", i, bn.net.getPotentialVector()[i], twin.net.getPotentialVector()[i]));
                const bool failed = bn.net.getConvergenceFailCount() != fails; const int major = bn.net.mMajorStepCount, minors = std::min(bn.net.mLastMinorStep, linear ? 1 : bn.net.mMinorStepLimit);
                // What the log was told to do at the start of this step.
                bool dump = false, recorded = false;
                if (maybe) { const bool took = cmd == In::SNAP ? log.mInputData.mModeCommand != In::SNAP : cmd == In::PAUSE ? log.mState == GunnsMinorStepLog::PAUSED : log.head().mMajorStep == major; if (took) st = PAUSED; else { ctx.probe("command_waits_for_writer"); } }
                if (size == 0) { cmd = In::PAUSE; }
                if (st != WRITING) {
                    if (cmd == In::PAUSE) { rec = false; st = PAUSED; }
                    else if (cmd == In::SNAP) { ctx.check(log.mInputData.mModeCommand == (st == PAUSED ? In::PAUSE : st == AUTO ? In::RECORD_AUTO : In::RECORD_SNAP), fmt("log: after a snapshot the command is %d, it was recording in mode %d", log.mInputData.mModeCommand, (int)st)); rec = false; dump = true; st = WRITING; }
                    else { if (st == PAUSED) { ring.clear(); rec = true; } st = cmd == In::RECORD_AUTO ? AUTO : SNAP; }
                }
                recorded = rec;
                auto initiate = [&]() { Expect e; e.frames.assign(ring.begin(), ring.end()); if (!ring.empty()) e.name = prefix + std::to_string(ring.back().major) + ".csv"; expect.push_back(e); st = WRITING; rec = false; };
                if (dump) initiate();
                if (recorded) {
                    // The minor steps as the links saw them.
                    std::map<int, int> applied; const int conv0 = 0; (void)conv0; size_t ev = 0; std::string last;
                    for (int k = 1; k <= minors; ++k) {
                        Frame f; f.major = major; f.minor = k; f.vague = true; bool any = false, rej = false, del = false;
                        // events of minor step k: 's'/'m' with step k, then 'c' with step k
                        std::map<int, SlEvent> votes;
                        for (; ev < bn.trace.size(); ++ev) { const SlEvent& x = bn.trace[ev]; if (x.what == 's' || x.what == 'm') { if (x.step != k) break; applied[x.link] = k; } else if (x.what == 'c') { if (x.step != k) break; votes[x.link] = x; any = true; const int vote = x.conv == 0 && x.result == GunnsBasicLink::DELAY ? (int)GunnsBasicLink::CONFIRM : x.result; rej = rej || vote == GunnsBasicLink::REJECT; del = del || vote == GunnsBasicLink::DELAY; } else if (x.what == 'r' || x.what == 'i') continue; else if (x.what == 'f' || x.what == 'o') break; }
                        const bool lastOne = k == minors;
                        if (lastOne && threw) { f.res = "MATH_FAIL"; }
                        else if (lastOne && !failed) { f.res = linear ? "CONFIRM" : "SUCCESS"; f.vague = false; f.all.assign(bn.net.getPotentialVector(), bn.net.getPotentialVector() + bn.n); }
                        else if (any) { f.res = rej ? "REJECT" : del ? "DELAY" : "CONFIRM"; f.vague = false; if (lastOne && failed) f.all.assign(bn.net.getPotentialVector(), bn.net.getPotentialVector() + bn.n); }
                        else decomp = true;
                        for (size_t i = 0; i < bn.links.size(); ++i) if (SimLink* s = bn.sim(i)) { if (!applied.count(i)) continue; Frame::L l{(int)i, -1, 0, 0, s->gAt(applied[i]), -s->srcAt(applied[i])}; auto it = votes.find(i); if (it != votes.end()) { l.vote = it->second.result; l.p0 = it->second.p0; l.p1 = it->second.p1; } else if (f.all.empty()) continue; f.l.push_back(l); }
                        for (auto& x : votes) f.asked.insert(x.first);
                        for (size_t i = 0; i < bn.links.size(); ++i) if (!bn.sim(i)) f.asked.insert(i);
                        ring.push_back(f); while (ring.size() > size) ring.pop_front(); last = f.res;
                    }
                    if (decomp) ctx.probe("decomposition_limit");
                    if (st == AUTO && (threw || failed)) { ctx.probe("automatic_dump"); initiate(); }
                }
                ctx.check((log.mState == GunnsMinorStepLog::WRITING_FILE) <= (st == WRITING), fmt("log: after major step %d the log is writing a file, it has no reason to", major));
                ctx.check(!(st != WRITING && log.mIsRecording != rec), fmt("log: after major step %d the log %s", major, rec ? "does not record, though told to" : "records, though told not to"));
                ctx.log(fmt("%d %d", major, (int)st)); ctx.state(fmt("%d%d%d%zu", (int)st, cmd, (int)rec, ring.size()));
                for (size_t i = 0; i < bn.links.size(); ++i) { if (bn.sim(i)) bn.sim(i)->clearScript(); if (twin.sim(i)) twin.sim(i)->clearScript(); }
            }
            else { Threads::Quiet q; if (applyScript(bn, o, ctx)) applyScript(twin, o, ctx); else if (o.kind == "fault") { for (BasicNet* b : {&bn, &twin}) { SimLink* s = b->sim(static_cast<size_t>(std::max(0, o.i(0))) % b->links.size()); if (s) { s->fault = SimLink::THROW; s->faultAt = std::max(1, o.i(1)); } } } else if (o.kind == "param") { applyDisturbance(bn, o, ctx); applyDisturbance(twin, o, ctx); } }
        }
        done = true;
    });
    th.spawn("writer", [&]() {
        for (int last = 0; last < 2; last += done) {
            log.updateAsync();
            { Threads::Quiet q; const std::string name = opened; opened.clear(); if (!name.empty()) { Written w; w.name = name; w.text = slurp(name, &w.opened); unlink(name.c_str()); written.push_back(w); ctx.fault("file_write"); } }
            Threads::current()->pass();
            if (!done) Threads::current()->sleepNs(100);
        }
    });
    th.run(); disk().active = false;
    ctx.state(th.schedule); ctx.log(fmt("%llx", (unsigned long long)th.schedule)); if (th.switches() > 1) ctx.probe("interleaved_phase");
    ctx.check(log.mState != GunnsMinorStepLog::WRITING_FILE, "log: the writer has nothing left to do, the log still waits for it");
    ctx.check(written.size() == expect.size(), fmt("log: %zu files were to be written, %zu were", expect.size(), written.size()));
    for (size_t i = 0; i < expect.size(); ++i) judge(expect[i], written[i], bn, ctx);
}
void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(1, deep ? 6 : 4), steps = r.irange(4, deep ? 60 : 25); p.set("nodes", n); p.set("minorLimit", r.irange(2, 10)); p.set("decompLimit", r.chance(0.2) ? r.irange(1, 4) : 100); p.set("tol", 1e-6); p.set("path", r.irange(0, 1));
    p.set("logSteps", r.chance(0.05) ? 0 : r.irange(1, 12)); p.set("logMode", r.irange(0, 2));
    int links = 0; const bool lin = r.chance(0.15);
    for (int i = 0; i < n; ++i, ++links) p.add("link", {5.0, (double)i, (double)n, r.logRange(0.1, 10), r.range(-5, 5), lin ? 0.0 : r.chance(0.8) ? 1.0 : 0.0});
    for (int i = r.irange(0, 3); i > 0; --i, ++links) p.add("link", {r.chance(0.6) ? 5.0 : 0.0, (double)r.irange(0, n - 1), (double)r.irange(0, n), r.logRange(0.1, 10), r.range(-5, 5), lin ? 0.0 : 1.0});
    genPreempts(r, p, 2, deep);
    for (int s = 0; s < steps; ++s) {
        for (int k = r.chance(0.5) ? r.irange(1, 3) : 0; k > 0; --k) genScripts(r, p, links, 0.15, 0.15, 6);
        if (r.chance(0.1)) p.add("fault", {(double)r.irange(0, links - 1), (double)r.irange(1, 3)});
        if (r.chance(0.25)) p.add("cmd", {(double)r.irange(0, 3)});
        if (r.chance(0.06)) p.add("size", {r.chance(0.1) ? 0.0 : (double)r.irange(1, 14)});
        if (r.chance(0.05)) p.add("disk", {r.chance(0.5) ? 0.0 : 0.6});
        if (r.chance(0.3)) p.add("wait", {(double)r.irange(1, 20)});
        if (r.chance(0.2)) p.add("param", {(double)r.irange(0, links - 1), r.logRange(0.1, 10), r.range(-5, 5)});
        p.add("step", {(double)(r.chance(0.7) ? 1 : r.irange(2, 5))});
    }
}
Register l01({"L01", "distinct = a different network, script of votes and faults, command schedule or thread interleaving; trivial = nothing is ever recorded", "mode, command and fill of the log, and interleaving of network and writer", {
    Scenario{"steplog", 1, gen, run}}, 20000, 1000000,
    {"GunnsMinorStepLog", "Gunns solver with its recording calls", "basic conductors"}, {"network and writer threads are fibers of the simulator", "open() of the log file may be refused", "non-linear links follow the plan's script"},
    {"One writer thread", "The network is in normal mode", "Freeze jobs run between steps of the network thread"}});
} // namespace
} // namespace dst
