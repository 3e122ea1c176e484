// S07: a restart changes nothing. Each plan is run twice, once with restarts after chosen steps; both must do the same.
#include "common.hh"
#include "trace.hh"
namespace dst {
#define KIND(n) void n##Run(const Plan&, Ctx&); void n##Gen(Rng&, Plan&, bool);
KIND(comp) KIND(src) KIND(tank) KIND(fluid) KIND(thermal) KIND(elect)
#undef KIND
namespace {
typedef void (*RunFn)(const Plan&, Ctx&); typedef void (*GenFn)(Rng&, Plan&, bool);
void twice(RunFn fn, double tol, const Plan& p, Ctx& ctx) {
    NetTrace a, b; for (auto& o : p.ops) if (o.kind == "reload") b.restarts.insert(std::max(1, o.i(0)));
    if (b.restarts.empty()) return;
    for (NetTrace* t : {&a, &b}) { Ctx m(ctx.verbose); m.muted = true; netTrace() = t; try { fn(p, m); } catch (...) { netTrace() = 0; throw; } netTrace() = 0; ctx.simTime += m.simTime; ctx.steps += m.steps; if (t == &a) for (auto& f : m.faults) ctx.fault(f.first, f.second); }
    const size_t first = *b.restarts.begin();
    for (size_t s = 0; s < a.steps.size(); ++s) {
        if (s < a.bad.size() && a.bad[s]) { ctx.probe("overdrawn_step"); break; }
        ctx.check(s < b.steps.size() && a.steps[s].size() == b.steps[s].size(), fmt("restart: the run goes on to step %zu, after a restart it stops before", s + 1));
        const auto& u = a.steps[s]; const auto& v = b.steps[s];
        for (size_t k = 0; k < u.size(); ++k) if (!(std::fabs(u[k] - v[k]) <= tol * std::max(std::fabs(u[k]), std::fabs(v[k])) + 1e-3 * tol)) {
            const std::string w = fmt("restart: %ld step(s) after the first restart the %s is %.12g, without it %.12g", (long)s + 1 - (long)first, a.what[k].c_str(), v[k], u[k]);
            ctx.violate(w);
        }
        ctx.checksDone += u.size();
        if (b.restarts.count((long)s + 1)) ctx.fault("restart");
        if (s % 10 == 0 && !u.empty()) ctx.log(fmt("%zu %.12g", s, u[0]));
        ctx.state((uint64_t)(s + 1 >= first) * 64 + std::min<size_t>(u.size(), 63) + 128 * a.kinds.size());
    }
}
void addReloads(Rng& r, Plan& p) { int steps = p.geti("steps", 0); if (steps <= 0) for (auto& o : p.ops) if (o.kind == "step") steps += std::max(1, o.i(1, 1)); const int n = r.chance(0.7) ? 1 : r.irange(2, 5); for (int i = 0; i < n; ++i) p.add("reload", {(double)r.irange(1, std::max(2, steps))}); }
/// A restart documents that it drops filter memories, edits, port moves and external heat: those are left out.
void swapKind(Plan& p, const char* op, int kinds, int from, int to) { for (auto& o : p.ops) if (o.kind == op && std::abs(o.i(0)) % kinds == from) o.a[0] = to; }
void flowGen(Rng& r, Plan& p, bool d) { compGen(r, p, d); swapKind(p, "comp", 15, 9, 8); swapKind(p, "comp", 15, 13, 14); }          // hi-fi valve leak, turbine pressure filter
void sourceGen(Rng& r, Plan& p, bool d) { srcGen(r, p, d); swapKind(p, "comp", 14, 4, 3); }                                          // hot reactor temperature
void storeGen(Rng& r, Plan& p, bool d) { tankGen(r, p, d); const bool liq = p.geti("liquid"); for (auto& o : p.ops) { if (o.kind == "comp") o.a[0] = 0; if (o.kind == "ev" && o.i(2) != 11) { const int liqOk[] = {0, 1, 5, 6, 7, 8}; o.a[2] = liq ? liqOk[o.i(2) % 6] : 6; } } }
void plainGen(Rng& r, Plan& p, bool d) { fluidGen(r, p, d); swapKind(p, "flink", 14, 10, 0); }                                       // flow controller filter
void heatGen(Rng& r, Plan& p, bool d) { thermalGen(r, p, d); std::vector<Op> k; for (auto& o : p.ops) if (o.kind != "port" && o.kind != "ext" && o.kind != "cap_edit") k.push_back(o); p.ops = k; }
Scenario sc(const char* name, double w, GenFn g, RunFn f, double tol = 1e-8) { return Scenario{name, w, [=](Rng& r, Plan& p, bool d) { g(r, p, d); addReloads(r, p); }, [=](const Plan& p, Ctx& c) { twice(f, tol, p, c); }}; }
Register s07({"S07", "distinct = a different network, state, event schedule or set of restart points; trivial = the run ends before its first restart", "restarted or not, size of the network and kinds of link", {
    sc("flow", 1, flowGen, compRun), sc("sources", 1, sourceGen, srcRun), sc("stores", 1, storeGen, tankRun), sc("fluid", 1, plainGen, fluidRun), sc("thermal", 2, heatGen, thermalRun), sc("elect", 1, electGen, electRun)}, 60000, 3000000,
    {"Gunns solver and restart, nodes and all links of the fluid, thermal and electrical scenarios"}, {"health & status manager replaced by a recorder", "checkpoint load replaced by the state left in memory"}, {"Steps in which a node is asked for more fluid than it holds, or that do not converge, end the comparison"}});
} // namespace
} // namespace dst
