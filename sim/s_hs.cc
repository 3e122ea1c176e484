// H01..H03: health & status message queue, redundancy filter and manager under simulated threads.
#include "fiber.hh"
#include "disk.hh"
#include "common.hh"
#include "simulation/hs/TsHsMsgQueue.hh"
#include "simulation/hs/TsHsMsgStdFilter.hh"
#include "simulation/hs/TsHsStdMngr.hh"
#include "simulation/hs/TsHsConfig.hh"
#include "simulation/hs/TsHsMsg.hh"
#include <deque>
#include <iostream>
#include <sstream>

namespace dst {
std::vector<std::string>& published();
namespace {

const TS_HS_MSG_TYPE TYPES[5] = {TS_HS_DEBUG, TS_HS_INFO, TS_HS_WARNING, TS_HS_ERROR, TS_HS_FATAL};

// ---- H01: the message queue ----------------------------------------------------------------------
// A message is identified by an id; every field is derived from it.
void put(TsHsMsgQueue& q, int id) {
    TS_TIMER_TYPE met = {1, id % 100, id % 24, id % 60, id % 59, id * 0.5, 0};
    const std::string s = std::to_string(id);
    q.insertMsg("file" + s, id, "func" + s, TYPES[id % 5], "sub" + s, std::string(5 + id % 40, 'x') + s, met, 1000000UL + id);
}
int idOf(const TsHsMsgQueueNode& n, Ctx& ctx) {
    const int id = n.mLine;
    const std::string s = std::to_string(id);
    ctx.check(n.mFile == "file" + s && n.mFunction == "func" + s && n.mType == TYPES[id % 5] && n.mSubsys == "sub" + s && n.mText == std::string(5 + id % 40, 'x') + s
              && n.mMet.day == id % 100 && n.mMet.hour == id % 24 && n.mMet.min == id % 60 && n.mMet.sec == id % 59 && n.mMet.seconds == id * 0.5 && n.mTimestamp == 1000000UL + id,
              fmt("torn-message: message with line %d came out with file '%s' text '%s' timestamp %lu", id, n.mFile.c_str(), n.mText.c_str(), n.mTimestamp));
    return id;
}

void genH01(Rng& r, Plan& p, bool deep) {
    p.set("cap", r.chance(0.3) ? r.irange(-1, 3) : r.irange(1, 40));
    p.set("blocking", r.chance(0.5));
    const int phases = r.irange(1, deep ? 6 : 4);
    int threads = 0;
    for (int k = 0; k < phases; ++k) {
        const double u = r.u();
        if (u < 0.6) {
            const int np = r.irange(1, 4), nc = r.irange(0, 2);
            p.add("threads", {(double)np, (double)nc, (double)r.irange(1, deep ? 30 : 15), (double)r.irange(0, 30)});
            threads = std::max(threads, np + nc);
        } else if (u < 0.75) p.add("resize", {(double)r.irange(0, 30), r.chance(0.5) ? 1.0 : 0.0});
        else if (u < 0.9) p.add("fill", {(double)r.irange(1, 40)});
        else p.add("drain", {(double)r.irange(1, 60)});
    }
    p.add("drain", {1000});
    genPreempts(r, p, std::max(threads, 2), deep);
}

void runH01(const Plan& p, Ctx& ctx) {
    const bool viaInit = p.geti("cap") % 2 == 0;
    TsHsMsgQueue q(viaInit ? 4000 : p.geti("cap"), p.geti("blocking") != 0);
    if (viaInit) q.initialize(p.geti("cap"), p.geti("blocking") != 0);
    bool blocking = p.geti("blocking") != 0;
    int cap = std::max(p.geti("cap"), 1), nextId = 1;
    std::map<int, int> state;          // id -> 1 offered, 2 delivered
    std::deque<int> model; bool exact = true;   // content when known exactly
    long offered = 0, delivered = 0, resizedAway = 0;
    auto account = [&](const char* when) {
        const long lost = q.getOverflows() + q.getLockFailures();
        ctx.check(offered == delivered + q.getSize() + lost,
                  fmt("accounting (%s): %ld offered, %ld delivered, %d queued, %d overflows, %d lock failures", when, offered, delivered, q.getSize(), q.getOverflows(), q.getLockFailures()));
        ctx.check(q.getCapacity() == cap && q.getSize() >= 0 && q.getSize() <= cap, fmt("capacity: capacity %d (want %d), size %d", q.getCapacity(), cap, q.getSize()));
        ctx.check(q.isEmpty() == (q.getSize() == 0) && q.isFull() == (q.getSize() == cap), "capacity: empty or full flag disagrees with the size");
    };
    account("start");
    for (const Op& o : p.ops) {
        if (o.kind == "resize") {
            const int n = std::max(o.i(0), 1);
            blocking = o.b(1);
            q.initialize(o.i(0), blocking);
            cap = n;
            while (exact && static_cast<int>(model.size()) > cap) { model.pop_front(); }
            ctx.fault("queue_resized");
            account("after resize");
        } else if (o.kind == "fill") {
            for (int k = 0; k < o.i(0); ++k) { put(q, nextId); state[nextId] = 1; ++offered; if (exact) { model.push_back(nextId); if (static_cast<int>(model.size()) > cap) model.pop_front(); } ++nextId; }
            account("after fill");
        } else if (o.kind == "drain") {
            int lastPer[8] = {0}; (void)lastPer;
            for (int k = 0; k < o.i(0); ++k) {
                TsHsMsgQueueNode n;
                const int before = q.getSize();
                const bool got = q.removeMsg(n);
                ctx.check(got == (before > 0), fmt("remove: returned %d with %d messages queued", got, before));
                if (!got) break;
                const int id = idOf(n, ctx);
                ctx.check(state.count(id) && state[id] == 1, fmt("exactly-once: message %d delivered %s", id, state.count(id) ? "twice" : "but never offered"));
                state[id] = 2; ++delivered;
                if (exact) { ctx.check(!model.empty() && model.front() == id, fmt("fifo: message %d delivered, oldest queued is %d", id, model.empty() ? -1 : model.front())); if (!model.empty()) model.pop_front(); }
            }
            account("after drain");
            if (q.isEmpty()) { model.clear(); exact = true; }
        } else if (o.kind == "threads") {
            const int np = o.i(0), nc = o.i(1), m = o.i(2), polls = o.i(3);
            Threads th(ctx, p);
            std::vector<std::vector<std::pair<int, long> > > out(nc + 1);
            std::map<int, std::pair<long, long> > span;       // id -> offer start and end
            long clock = 0; int doneProducers = 0; long completed = 0;
            const int lockBefore = q.getLockFailures(); (void)lockBefore;
            const int base = nextId; nextId += np * m;
            for (int t = 0; t < np; ++t) th.spawn("producer" + std::to_string(t), [&, t]() {
                for (int k = 0; k < m; ++k) {
                    const int id = base + t * m + k;
                    { Threads::Quiet qq; state[id] = 1; ++offered; span[id].first = ++clock; span[id].second = -1; }
                    put(q, id);
                    { Threads::Quiet qq; span[id].second = ++clock; ++completed; }
                }
                ++doneProducers;
            });
            for (int t = 0; t < nc; ++t) th.spawn("consumer" + std::to_string(t), [&, t]() {
                int idle = 0;
                while (idle <= polls || doneProducers < np) {
                    TsHsMsgQueueNode n;
                    long certain; { Threads::Quiet qq; certain = completed; }
                    const long off0 = offered - completed; (void)off0;
                    const long queuedBefore = static_cast<long>(q.getSize());
                    const bool got = q.removeMsg(n);
                    Threads::Quiet qq;
                    if (got) {
                        const int id = idOf(n, ctx);
                        ctx.check(state.count(id) && state[id] == 1, fmt("exactly-once: message %d delivered %s", id, state.count(id) && state[id] == 2 ? "twice" : "but never offered"));
                        state[id] = 2; ++delivered; ++clock;
                        out[t].push_back({id, clock});
                    } else {
                        // A lone consumer never misses a message that was already there.
                        if (nc == 1) ctx.check(queuedBefore == 0, "remove: reported an empty queue while messages were waiting");
                        ++idle;
                        if (doneProducers < np) { th.current()->pass(); }
                    }
                    (void)certain;
                    if (idle > 2000) break;
                }
            });
            th.run();
            ctx.check(!blocking || q.getLockFailures() == lockBefore, "blocking: a blocking queue skipped messages");
            ctx.state(th.schedule); ctx.log(fmt("%llx", (unsigned long long)th.schedule)); ctx.log(fmt("%llx", (unsigned long long)th.schedule));
            if (th.switches() > 1) ctx.probe("interleaved_phase");
            account("after threads");
            // Order: what one thread finished offering before another offer began leaves first.
            for (int t = 0; t < nc; ++t) for (size_t a = 0; a + 1 < out[t].size(); ++a) {
                const int x = out[t][a].first, y = out[t][a + 1].first;
                if (!span.count(x) || !span.count(y)) { ctx.check(!(span.count(x) && !span.count(y)), fmt("fifo: message %d left before the older message %d", x, y)); continue; }
                ctx.check(span[y].second < 0 || span[x].first < span[y].second, fmt("fifo: message %d left before message %d, which was queued earlier", x, y));
            }
            exact = false;
        }
    }
    (void)resizedAway;
    ctx.check(q.isEmpty(), "drain: messages remain after draining");
    ctx.logd("delivered", delivered); ctx.logd("overflows", q.getOverflows()); ctx.logd("skipped", q.getLockFailures());
    ctx.advance(0);
}

// ---- H02: the redundancy filter --------------------------------------------------------------------
void genH02(Rng& r, Plan& p, bool deep) {
    p.set("interval", r.irange(1, 30)); p.set("count", r.irange(1, 4)); p.set("history", r.chance(0.3) ? r.irange(1, 3) : r.irange(1, 12));
    p.set("blocking", r.chance(0.6)); p.set("mask", r.chance(0.3) ? r.irange(0, 31) : 0);
    const bool threaded = r.chance(0.4);
    p.set("threaded", threaded);
    const int n = r.irange(5, deep ? 200 : 80), keys = r.irange(1, 15);
    int threads = r.irange(2, 4);
    if (threaded) {
        p.set("history", 40); p.set("threads", threads);
        for (int i = 0; i < n; ++i) p.add("msg", {0, (double)r.irange(0, keys), (double)r.irange(0, 4), (double)r.irange(0, threads - 1)});
        genPreempts(r, p, threads, deep);
        return;
    }
    const double scale = r.logRange(0.05, 20);
    for (int i = 0; i < n; ++i) {
        const double u = r.u();
        if (u < 0.9) p.add("msg", {r.range(0.001, scale), (double)r.irange(0, keys), (double)r.irange(0, 4)});
        else if (u < 0.92) p.add("enable", {(double)r.irange(0, 1)});
        else if (u < 0.94) p.add("restart");
        else if (u < 0.96) p.add("set", {(double)r.irange(0, 2), (double)r.irange(-2, 20)});
        else if (u < 0.98) p.add("type", {(double)r.irange(0, 4), (double)r.irange(0, 1)});
        else p.add("blocking", {(double)r.irange(0, 1)});
    }
    p.add("enable", {1});
}

struct FilterModel {
    int interval, count, history; unsigned mask; bool enabled;
    struct E { std::deque<double> t; };
    std::map<std::string, E> m;
    long processed = 0, suppressed = 0;
    bool send(double now, const std::string& key, int type) {
        if (!enabled) return true;
        ++processed;
        if (mask & (1u << TYPES[type])) { ++suppressed; return false; }
        auto it = m.find(key);
        if (it == m.end()) {
            while (static_cast<int>(m.size()) >= history) {
                auto old = m.begin();
                for (auto i = m.begin(); i != m.end(); ++i) if (i->second.t.back() < old->second.t.back()) old = i;
                m.erase(old);
            }
            m[key].t.push_back(now);
            return true;
        }
        auto& t = it->second.t;
        while (!t.empty() && t.front() < now - interval) t.pop_front();
        if (static_cast<int>(t.size()) < count) { t.push_back(now); return true; }
        ++suppressed;
        return false;
    }
};
// Key k: distinct messages share parts, so that a filter ignoring one field is noticed.
struct Key { std::string file; int line; std::string sub, text; };
Key keyOf(int k) { return Key{k % 2 ? "a.cpp" : "b.cpp", (k / 2) % 2 ? 10 : 20, (k / 4) % 2 ? "EPS" : "TCS", "text" + std::to_string(k / 8)}; }
std::string keyStr(int k) { Key x = keyOf(k); return x.file + "|" + std::to_string(x.line) + "|" + x.sub + "|" + x.text; }

void runH02(const Plan& p, Ctx& ctx) {
    TsHsMsgStdFilter f;
    FilterModel m;
    m.enabled = true;
    f.setInterval(m.interval = p.geti("interval", 5)); f.setCount(m.count = p.geti("count", 1)); f.setHistory(m.history = p.geti("history", 5));
    f.setBlocking(p.geti("blocking") != 0); f.setEnabled(true);
    m.mask = 0;
    for (int i = 0; i < 5; ++i) { const bool on = (p.geti("mask") >> i) & 1; f.setTypeFilter(TYPES[i], on); if (on) m.mask |= 1u << TYPES[i]; }
    f.init();
    if (p.geti("threaded")) {
        const int n = std::max(1, p.geti("threads", 2));
        Threads th(ctx, p);
        std::map<int, long> sent, asked; long filtered = 0, refused = 0, calls = 0;
        for (int t = 0; t < n; ++t) th.spawn("model" + std::to_string(t), [&, t]() {
            for (const Op& o : p.ops) if (o.kind == "msg" && o.i(3) == t) {
                Key k = keyOf(o.i(1));
                const bool s = f.shouldSendMessage(100.0, k.file, k.line, TYPES[o.i(2)], k.sub, k.text);
                Threads::Quiet q;
                ++calls;
                const bool masked = m.mask & (1u << TYPES[o.i(2)]);
                if (masked) { ctx.check(!s, "category: a message of a suppressed category passed"); ++filtered; continue; }
                ++asked[o.i(1)]; if (s) ++sent[o.i(1)]; else ++refused;
            }
        });
        th.run();
        ctx.state(th.schedule); ctx.log(fmt("%llx", (unsigned long long)th.schedule));
        const bool blocking = p.geti("blocking") != 0;
        const long fails = f.getLockFailures();
        ctx.check(!blocking || fails == 0, "blocking: a blocking filter dropped messages on a lock conflict");
        long wantSent = 0, gotSent = 0;
        for (auto& a : asked) {
            const long want = std::min<long>(a.second, m.count);
            gotSent += sent[a.first]; wantSent += want;
            ctx.check(sent[a.first] <= want, fmt("threaded: message %d passed %ld times at one instant, the limit is %ld", a.first, sent[a.first], want));
            if (fails == 0) ctx.check(sent[a.first] == want, fmt("threaded: message %d passed %ld times, %ld expected", a.first, sent[a.first], want));
        }
        ctx.check(wantSent - gotSent <= fails, fmt("threaded: %ld messages were suppressed without cause (%ld lock conflicts)", wantSent - gotSent, fails));
        ctx.check(static_cast<long>(f.getMessagesProcessed()) == calls - fails, fmt("accounting: %ld processed, %ld calls, %ld lock conflicts", (long)f.getMessagesProcessed(), calls, fails));
        ctx.check(static_cast<long>(f.getMessagesSuppressed()) == filtered + refused - fails, fmt("accounting: %ld suppressed, %ld were refused", (long)f.getMessagesSuppressed(), filtered + refused - fails));
        return;
    }
    double now = 10.0;
    for (const Op& o : p.ops) {
        if (o.kind == "msg") {
            now += o.d(0);
            ctx.advance(o.d(0));
            Key k = keyOf(o.i(1));
            // The boundary of the interval is not judged.
            auto it = m.m.find(keyStr(o.i(1)));
            bool edge = false;
            if (it != m.m.end()) for (double t : it->second.t) if (std::fabs(t - (now - m.interval)) < 1e-6) edge = true;
            if (edge) { ctx.probe("interval_edge_skipped"); continue; }
            const bool want = m.send(now, keyStr(o.i(1)), o.i(2));
            const bool got = f.shouldSendMessage(now, k.file, k.line, TYPES[o.i(2)], k.sub, k.text);
            ctx.check(got == want, fmt("decision: message %d at %.3f s %s, it should be %s (interval %d, count %d, history %d)", o.i(1), now, got ? "passed" : "was suppressed", want ? "passed" : "suppressed", m.interval, m.count, m.history));
            ctx.check(static_cast<long>(f.getMessagesProcessed()) == m.processed && static_cast<long>(f.getMessagesSuppressed()) == m.suppressed, fmt("accounting: filter counts %ld processed %ld suppressed, model %ld and %ld", (long)f.getMessagesProcessed(), (long)f.getMessagesSuppressed(), m.processed, m.suppressed));
            ctx.state(Ctx::hashStr(fmt("%zu/%d/%d/%d", m.m.size(), m.history, got, m.count)));
            ctx.log(got ? "pass" : "stop");
            if (static_cast<int>(m.m.size()) >= m.history) ctx.probe("history_full");
        } else if (o.kind == "enable") { f.setEnabled(m.enabled = o.b(0)); ctx.fault("filter_toggled"); }
        else if (o.kind == "restart") { f.restart(); m.m.clear(); ctx.fault("restart"); }
        else if (o.kind == "set") {
            const int v = o.i(1);
            if (o.i(0) == 0) { f.setInterval(v); if (v > 0) m.interval = v; }
            else if (o.i(0) == 1) { f.setCount(v); if (v > 0) m.count = v; }
            else { f.setHistory(v); if (v > 0) m.history = v; }
            ctx.fault("settings_changed");
        } else if (o.kind == "type") { f.setTypeFilter(TYPES[o.i(0)], o.b(1)); if (o.b(1)) m.mask |= 1u << TYPES[o.i(0)]; else m.mask &= ~(1u << TYPES[o.i(0)]); ctx.fault("category_changed"); }
        else if (o.kind == "blocking") f.setBlocking(o.b(0));
    }
}

// ---- H03: the manager, from request to log file ------------------------------------------------------
void genH03(Rng& r, Plan& p, bool deep) {
    p.set("cap", r.chance(0.3) ? r.irange(1, 5) : r.irange(5, 200));
    p.set("qblock", r.chance(0.6)); p.set("fblock", r.chance(0.6)); p.set("tblock", r.chance(0.6)); p.set("cblock", r.chance(0.6));
    p.set("text", r.chance(0.95)); p.set("console", r.chance(0.5)); p.set("filter", r.chance(0.5)); p.set("mask", r.chance(0.2) ? r.irange(0, 31) : 0);
    p.set("overwrite", r.chance(0.7));
    const int models = r.irange(1, 3);
    p.set("models", models);
    p.set("badinit", r.chance(0.03));
    // Simulated executive: thread 0; helper: thread 1; models after.
    const int init = r.irange(0, 4);
    for (int i = 0; i < init; ++i) p.add("initmsg", {(double)r.irange(0, 4)});
    const int n = r.irange(2, deep ? 60 : 30);
    for (int i = 0; i < n; ++i) p.add("msg", {(double)r.irange(0, models - 1), (double)r.irange(0, 4), r.chance(0.5) ? 0.0 : r.logRange(1e-3, 3.0), (double)r.irange(0, 30), r.chance(0.5) ? 0.0 : (double)r.irange(1, 5)});
    const int k = r.irange(0, deep ? 8 : 4);
    for (int i = 0; i < k; ++i) { p.add("freeze", {r.logRange(1e-2, 3.0), r.logRange(1e-2, 2.0), (double)r.irange(1, 3)}); if (r.chance(0.2)) p.add("restart", {r.logRange(1e-2, 1.0)}); }
    if (r.chance(0.3)) { const int d = r.irange(1, 4); for (int i = 0; i < d; ++i) p.add("disk", {(double)r.irange(0, 3), (double)r.irange(0, 40), (double)r.irange(1, 6)}); }
    p.set("overlap", r.chance(0.5));   // shut down while the helper may still be working
    p.set("frozenend", r.chance(0.3)); // the run ends in a freeze: shut down without returning to run
    genPreempts(r, p, models + 2, deep);
}

struct Sent { int id, type; std::string sub; long t0, t1, m0, m1; bool immediate; int thread; };

void runH03(const Plan& p, Ctx& ctx) {
    Scratch dir;
    published().clear();
    TsHsConfig cfg;
    cfg.mOverallBlocking = 0; cfg.mTerminationEnabled = 1; cfg.mTerminationSubsystems = "EPS:TCS";
    cfg.mQueueBlockingEnabled = p.geti("qblock"); cfg.mQueueCapacity = p.geti("cap");
    cfg.mTextPluginEnabled = p.geti("text"); cfg.mTextPluginBlockingEnabled = p.geti("tblock"); cfg.mTextPluginOverwriteEnabled = p.geti("overwrite"); cfg.mTextPluginPath = "hs.log";
    cfg.mConsolePluginEnabled = p.geti("console"); cfg.mConsolePluginBlockingEnabled = p.geti("cblock");
    cfg.mFilterEnabled = p.geti("filter"); cfg.mFilterBlockingEnabled = p.geti("fblock");
    cfg.mRedundancyFilterInterval = 60; cfg.mRedundancyFilterCount = 3; cfg.mRedundancyFilterHistory = 1000;
    const int mask = p.geti("filter") ? p.geti("mask") : 0;
    cfg.mCategoryFilterDebugEnabled = p.geti("mask") & 1; cfg.mCategoryFilterInfoEnabled = (p.geti("mask") >> 1) & 1; cfg.mCategoryFilterWarningsEnabled = (p.geti("mask") >> 2) & 1;
    cfg.mCategoryFilterErrorsEnabled = (p.geti("mask") >> 3) & 1; cfg.mCategoryFilterFatalsEnabled = (p.geti("mask") >> 4) & 1;

    std::ostringstream console; std::streambuf* keep = std::cout.rdbuf(console.rdbuf());
    struct Restore { std::streambuf* k; ~Restore() { std::cout.rdbuf(k); tsGlobalHsMngr = 0; ts_global_met_ptr = 0; } } restore{keep};
    TS_TIMER_TYPE met = {1, 0, 0, 0, 0, 0.0, 0};
    ts_global_met_ptr = &met;
    auto setMet = [&](long s) { met.seconds = s; met.day = s / 86400; met.hour = s / 3600 % 24; met.min = s / 60 % 60; met.sec = s % 60; };
    setMet(3600);

    // Disk faults by write index: kind 0 open fails, 1 write fails, 2 torn write then failure, 3 disk full for a while.
    long openIdx = 0; bool damaged = false; int lastFault = -1;
    std::vector<Op> df; for (auto& o : p.ops) if (o.kind == "disk") df.push_back(o);
    long writeFaults = 0;
    disk().active = true;
    if (p.geti("badinit")) { disk().onOpen = [&](const char*, const char*) { ctx.fault("disk_open_failed"); return EACCES; }; }
    TsHsStdMngr mngr(cfg);
    ctx.check(tsGlobalHsMngr == &mngr, "global: the manager did not register itself");
    const bool textOn = p.geti("text") && !p.geti("badinit");
    auto hit = [&](int kind0, int kind1) -> int {
        for (auto& o : df) if ((o.i(0) == kind0 || o.i(0) == kind1) && openIdx > o.i(1) && openIdx <= o.i(1) + o.i(2)) return o.i(0);
        return -1;
    };
    disk().onOpen = [&](const char* path, const char* mode) -> int {
        if (mode[0] != 'a') return 0;
        ++openIdx;
        if (hit(0, 0) >= 0) { ctx.fault("disk_open_failed"); ++writeFaults; damaged = true; return EMFILE; }
        return 0;
    };
    disk().onWrite = [&](size_t n) -> long {
        const int k = hit(1, 3), t = hit(2, 2);
        if (k >= 0) { ctx.fault(k == 3 ? "disk_full" : "disk_write_failed"); if (lastFault != openIdx) ++writeFaults; lastFault = openIdx; damaged = true; return k == 3 ? -ENOSPC : -EIO; }
        if (t >= 0) { damaged = true; if (lastFault == openIdx) return -EIO; ctx.fault("disk_torn_write"); ++writeFaults; lastFault = openIdx; return static_cast<long>(n / 2 ? n / 2 : 1); }
        return static_cast<long>(n);
    };

    std::map<int, Sent> sent; int nextId = 1; long restarts = 0;
    auto send = [&](int type, int subLen, int thread, bool immediate, int front = 0) {
        int id; Sent* s;
        std::string sub;
        { Threads::Quiet q; id = nextId++; sub = std::string("SUBSYSTEMNAMESLONGERTHAN").substr(0, 1 + subLen % 20); sent[id] = Sent{id, type, sub.substr(0, 12), seams().clock, -1, (long)met.seconds, -1, immediate, thread}; s = &sent[id]; }
        // every door a model can send through leads to the same logs
        const std::string file = "file" + std::to_string(id) + ".cpp", fn = id % 3 ? "fn" + std::to_string(id) : "", text = "text<" + std::to_string(id) + ">";
        switch (front) {
            case 1: tsHsSendMsgFileLine(file, id, fn, TYPES[type], sub, text); break;
            case 2: { TsHsMsg m(TYPES[type], sub); m << "text<" << id << ">"; tsHsSendMsgFileLine(file, id, fn, m); break; }
            case 3: { TsHsMsg m(TYPES[type], sub, "text<"); m << id << ">"; m.send(file, id, fn); break; }
            case 4: { TsHsMsg m(TYPES[(type + 1) % 5], "OTHER", "stale"); m.setSeverity(TYPES[type]); m.setSubsys(sub); m.send(file, id, fn, text); break; }
            case 5: { TsHsMsg m(TYPES[type], sub, "stale words"); m.clear(); m.setMessageText(text); m.send(file, id, fn); break; }
            default: mngr.msg(file, id, fn, TYPES[type], sub, text); break;
        }
        { Threads::Quiet q; s->t1 = seams().clock; s->m1 = (long)met.seconds; }
    };
    for (const Op& o : p.ops) if (o.kind == "initmsg") { send(o.i(0), 5, -1, true); seams().clock += 1; setMet((long)met.seconds + 1); }
    mngr.post_init();

    const int models = std::max(1, p.geti("models", 1));
    int active = models; bool stop = false; bool overlap = p.geti("overlap") != 0; bool helperIdle = true; long helperPasses = 0;
    {
        Threads th(ctx, p);
        th.spawn("executive", [&]() {
            long slept = 0; (void)slept;
            for (const Op& o : p.ops) {
                if (o.kind == "freeze") {
                    th.sleepNs(static_cast<long>(o.d(0) * 1e9));
                    mngr.freeze_init();
                    for (int i = 0; i < o.i(2); ++i) { mngr.freeze(); mngr.update(); th.sleepNs(static_cast<long>(o.d(1) * 1e9)); }
                    mngr.unfreeze();
                    ctx.fault("freeze");
                } else if (o.kind == "restart") {
                    // Restart happens in freeze, with every client quiet.
                    th.wait([&]() { return active == 0; });
                    mngr.freeze_init();
                    th.wait([&]() { return helperIdle; });
                    mngr.freeze();
                    { Threads::Quiet q; ++restarts; }
                    mngr.restart();
                    mngr.unfreeze();
                    ctx.fault("restart");
                }
            }
            const bool frozenEnd = p.geti("frozenend") != 0;
            if (frozenEnd) { mngr.freeze_init(); mngr.freeze(); mngr.update(); ctx.fault("shutdown_in_freeze"); }
            th.wait([&]() { return active == 0; });
            if (!overlap) { const long from = helperPasses; th.wait([&]() { return helperPasses > from + 1; }); }
            mngr.shutdown();
            { Threads::Quiet q; ctx.check(mngr.mMsgQueue.isEmpty(), "shutdown: messages sent before the shutdown are still queued after it"); }
            stop = true;
        });
        th.spawn("helper", [&]() {
            while (!stop) { helperIdle = false; mngr.inputOutputThread(); helperIdle = true; ++helperPasses; th.sleepNs(10000000L); }
        });
        for (int t = 0; t < models; ++t) th.spawn("model" + std::to_string(t), [&, t]() {
            for (const Op& o : p.ops) if (o.kind == "msg" && o.i(0) % models == t) {
                if (o.d(2) > 0) { th.sleepNs(static_cast<long>(o.d(2) * 1e9)); Threads::Quiet q; setMet(3700 + seams().clock - 1700000000L); }
                send(o.i(1), o.i(3), t, false, o.i(4));
            }
            --active;
        });
        th.run();
        ctx.state(th.schedule); ctx.log(fmt("%llx", (unsigned long long)th.schedule));
    }
    published().clear();
    disk().onOpen = nullptr; disk().onWrite = nullptr;
    // Everything is quiet: the manager's own accounting is final now.
    mngr.shutdown();
    long qSkip = 0, qOver = 0, fSkip = 0, tSkip = 0, cSkip = 0;
    for (auto& m : published()) {
        auto num = [&](const char* w) { size_t i = m.find(w); return i == std::string::npos ? 0L : atol(m.c_str() + i + strlen(w)); };
        if (m.find("MsgQueue skipped") != std::string::npos) qSkip = num("skipped");
        if (m.find("MsgQueue overwrote") != std::string::npos) qOver = num("overwrote");
        if (m.find("StdFilter skipped") != std::string::npos) fSkip = num("skipped");
        if (m.find("TextPlugin skipped") != std::string::npos) tSkip = num("skipped");
        if (m.find("ConsolePlugin skipped") != std::string::npos) cSkip = num("skipped");
    }
    ctx.check(!p.geti("qblock") || qSkip == 0, "blocking: the blocking queue skipped messages");
    ctx.check(!p.geti("fblock") || fSkip == 0, "blocking: the blocking filter skipped messages");
    ctx.check(!p.geti("tblock") || tSkip == 0, "blocking: the blocking text log skipped messages");
    ctx.check(!p.geti("cblock") || cSkip == 0, "blocking: the blocking console skipped messages");

    auto judge = [&](const std::string& what, const std::string& text, long skips, long faults, bool torn) {
        std::map<int, int> seen; long lines = 0, restartLines = 0; std::map<int, int> lastOf;
        std::istringstream in(text); std::string l;
        while (std::getline(in, l)) {
            if (l.find("H&S Restart") != std::string::npos) { ++restartLines; continue; }
            const size_t a = l.rfind("text<"), b = l.find('>', a == std::string::npos ? 0 : a);
            if (a == std::string::npos || b == std::string::npos) { ctx.check(torn, what + ": a line holds no message: '" + l + "'"); continue; }
            const int id = atoi(l.c_str() + a + 5);
            ctx.check(sent.count(id), what + ": holds a message that was never sent: '" + l + "'");
            ++seen[id]; ++lines;
            ctx.check(seen[id] == 1, fmt("%s: message %d logged twice", what.c_str(), id));
            const Sent& s = sent[id];
            ctx.check(!((mask >> s.type) & 1), fmt("%s: message %d of a suppressed category was logged", what.c_str(), id));
            if (torn) continue;
            static const char* TN[5] = {"DBG ", "INFO", "WARN", "ERR ", "FAT "};
            const std::string loc = fmt("file%d.cpp:%d %s", id, id, id % 3 ? fmt("fn%d() ", id).c_str() : "");
            std::string head = std::string(TN[s.type]) + " | " + s.sub + std::string(12 - s.sub.size(), ' ') + " | +";
            std::string tail = " | " + loc + std::string(loc.size() < 45 ? 45 - loc.size() : 0, ' ') + " | text<" + std::to_string(id) + ">";
            ctx.check(l.compare(0, head.size(), head) == 0 && l.size() > tail.size() && l.compare(l.size() - tail.size(), tail.size(), tail) == 0, what + ": message fields damaged: '" + l + "'");
            bool okMet = false, okTime = false;
            for (long v = s.m0; v <= s.m1 && !okMet; ++v) okMet = l.find(fmt("+%03ld %02ld:%02ld:%02ld |", v / 86400, v / 3600 % 24, v / 60 % 60, v % 60)) != std::string::npos;
            for (long v = s.t0; v <= s.t1 && !okTime; ++v) { time_t tt = v; struct tm g; gmtime_r(&tt, &g); okTime = l.find(fmt("| %04d-%02d-%02dT%02d:%02d:%02dZ |", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec)) != std::string::npos; }
            ctx.check(okMet, what + ": mission time is not the time the message was sent: '" + l + "'");
            ctx.check(okTime, what + ": clock time is not the time the message was sent: '" + l + "'");
            // With one thread draining, what a thread sent first is logged first.
            if (!overlap && restarts == 0) {
                bool frozen = p.geti("frozenend") != 0; for (auto& o : p.ops) frozen = frozen || o.kind == "freeze";
                if (!frozen) { ctx.check(lastOf[s.thread] < id, fmt("%s: message %d logged after a later message of the same thread", what.c_str(), id)); lastOf[s.thread] = id; }
            }
        }
        long masked = 0; for (auto& s : sent) masked += (mask >> s.second.type) & 1;
        const bool restartMasked = (mask >> 1) & 1;
        const long want = static_cast<long>(sent.size()) - masked + (restartMasked ? 0 : restarts);
        const long got = lines + restartLines, lost = qSkip + qOver + fSkip + skips + faults;
        // Messages of a suppressed category may also have been lost earlier on the way.
        const long slack = mask ? masked + restarts : 0;
        // A restart forgets the filter's count of lock conflicts.
        if (restarts > 0 && !p.geti("fblock")) { ctx.check(got <= want, what + ": more messages logged than sent"); ctx.logd("logged", lines); return; }
        if (!torn) ctx.check(got <= want && got + lost >= want && got + lost - slack <= want, fmt("%s: %ld logged + %ld accounted lost, %ld were to be logged", what.c_str(), got, lost, want));
        else ctx.check(got + lost >= want, fmt("%s: %ld messages missing, only %ld accounted for", what.c_str(), want - got, lost));
        ctx.logd("logged", lines);
    };
    std::string file = "hs.log";
    if (!p.geti("overwrite")) { time_t tt = 1700000000L; struct tm g; localtime_r(&tt, &g); file += fmt("_%02d%02d%02d%02d", g.tm_mday, g.tm_mon + 1, g.tm_hour, g.tm_min); }
    if (textOn) {
        bool ok; std::string text = slurp(file, &ok);
        ctx.check(ok, "text-log: the log file is missing");
        judge("text-log", text, tSkip, writeFaults, damaged);
    } else if (!p.geti("text") || restarts == 0) ctx.check(!fileExists(file), "text-log: a disabled log was written");   // a restart enables the log again as configured
    if (p.geti("console")) judge("console", console.str(), cSkip, 0, false);
    else ctx.check(console.str().find("text<") == std::string::npos, "console: a disabled console printed messages");
}

Register h01({"H01", "distinct = a different executed interleaving, or sequential history, of queue operations; trivial = no message passed",
    "hash of the executed thread interleaving", {{"queue", 1.0, genH01, runH01}}, 120000, 6000000,
    {"TsHsMsgQueue (real code)"}, {"threads: simulated, preempted at every basic block and mutex call as the plan says", "pthread mutex: simulated"},
    {"Sequentially consistent memory: reordering by compiler or CPU of unlocked reads is not simulated"}});
Register h02({"H02", "distinct = a different message history and filter setting; trivial = no message judged", "tracked messages, history limit, decision",
    {{"filter", 1.0, genH02, runH02}}, 150000, 8000000, {"TsHsMsgStdFilter, TsHsMsgFilter (real code)"}, {"threads and mutex: simulated", "Trick message_publish: stub"},
    {"Timestamps do not decrease, as the filter documents", "Decisions exactly on the interval boundary are not judged"}});
Register h03({"H03", "distinct = a different executed interleaving of models, helper thread and executive with disk faults; trivial = no message sent",
    "hash of the executed thread interleaving", {{"manager", 1.0, genH03, runH03}}, 60000, 4000000,
    {"TsHsStdMngr, TsHsMsgQueue, TsHsMsgStdFilter, TsHsTextPlugin, TsHsConsolePlugin, plugin manager (real code)", "C++ file streams (real, on a scratch directory)"},
    {"threads, mutexes, clock: simulated", "disk: faults injected at fopen and write", "Trick message_publish: stub", "console: captured stream"},
    {"Sequentially consistent memory", "Restart happens with all clients quiet, as Trick guarantees"}});
} // namespace
} // namespace dst
