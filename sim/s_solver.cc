// S01..S06: the network solver under schedules of disturbances, mode changes, votes and faults.
#include "basicnet.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"

namespace dst {
namespace {

std::vector<double> nodePots(const BasicNet& n) {
    std::vector<double> v;
    for (int i = 0; i <= n.n; ++i) v.push_back(n.nodes[i].getPotential());
    return v;
}

// Random connected network.  Every node reaches ground through the first 'nodes' links.
void genNet(Rng& r, Plan& p, bool deep, const std::vector<int>& kinds, bool caps) {
    const int n = r.irange(1, deep ? 10 : 7);
    p.set("nodes", n);
    p.set("minorLimit", r.irange(4, 24));
    p.set("decompLimit", 200);
    p.set("tol", 1e-6);
    p.set("island", r.irange(0, 2));
    const bool islands = r.chance(0.4);   // several separate islands
    const double glo = r.chance(0.3) ? 1e-5 : 0.05, ghi = r.chance(0.3) ? 1e3 : 20.0;
    for (int i = 0; i < n; ++i) {
        const int to = (i == 0 || islands || r.chance(0.4)) ? n : r.irange(0, i - 1);
        int t = caps && r.chance(0.3) ? BasicNet::CAP : BasicNet::COND;
        if (std::find(kinds.begin(), kinds.end(), (int)BasicNet::COND) == kinds.end()) t = kinds[0];
        p.add("link", {(double)t, (double)i, (double)to, r.logRange(glo, ghi), t == BasicNet::CAP ? r.range(0, 50) : 0.0, r.chance(0.7) ? 1.0 : 0.0});
    }
    const int extra = r.irange(1, deep ? 12 : 8);
    for (int k = 0; k < extra; ++k) {
        int a = r.irange(0, n), b = r.irange(0, n);
        int t = r.pick(kinds);
        double v = t == BasicNet::SRC ? r.range(-10, 10) : r.logRange(glo, ghi);
        double w = t == BasicNet::POT ? r.range(-100, 100) : t == BasicNet::CAP ? r.range(0, 50) : t == BasicNet::FLOWC ? r.range(0, 5) : r.range(-5, 5);
        p.add("link", {(double)t, (double)a, (double)b, v, w, r.chance(0.7) ? 1.0 : 0.0});
    }
}

void genDisturb(Rng& r, Plan& p, int n, const std::vector<int>& on) {
    const double L = r.irange(0, 30);
    switch (on[r.next() % on.size()]) {
        case 0: p.add("block", {L, r.chance(0.7) ? 1.0 : 0.0, r.chance(0.3) ? 1.0 : r.u()}); break;
        case 1: p.add("port", {L, (double)r.irange(0, 1), (double)r.irange(-1, n + 1)}); break;
        case 2: p.add("userport", {L, (double)r.irange(-1, 2), (double)r.irange(-1, n + 1), (double)r.irange(1, 3)}); break;
        case 3: p.add("override", {L, (double)r.irange(0, 1), r.chance(0.6) ? 1.0 : 0.0, r.range(-20, 100)}); break;
        case 4: p.add("param", {L, r.chance(0.1) ? 0.0 : r.logRange(1e-3, 50), r.range(-20, 20)}); break;
        case 10: p.add("sor", {r.chance(0.6) ? 1.0 : 0.0}); break;
        case 11: p.add("debug", {(double)r.irange(-1, 3), (double)r.irange(-1, n), (double)r.irange(-1, n)}); break;
        case 9: p.add("nudge", {L, (r.chance(0.5) ? 1 : -1) * r.logRange(1e-9, 1e-2)}); break;
        case 5: p.add("netcap", {(double)r.irange(0, n - 1), r.logRange(1e-3, 1.0)}); break;
        case 6: p.add("island", {(double)r.irange(0, 2)}); break;
        case 7: p.add("mode", {(double)r.irange(0, 2)}); break;
        case 8: p.add("run", {(double)r.irange(0, 1)}); break;
        default: break;
    }
}

void applyMode(BasicNet& net, const Op& o, Ctx& ctx, std::vector<double>& slave) {
    if (o.kind == "mode") {
        const int m = o.i(0);
        if (m == 0) net.net.setNormalMode();
        else if (m == 1) net.net.setDummyMode();
        else net.net.setSlaveMode();
        ctx.fault(m == 0 ? "mode_normal" : m == 1 ? "mode_dummy" : "mode_slave");
    } else if (o.kind == "run") {
        if (o.b(0)) net.net.setPauseMode(); else net.net.setRunMode();
        ctx.fault(o.b(0) ? "pause" : "unpause");
    } else if (o.kind == "island") {
        net.net.setIslandMode(static_cast<Gunns::IslandMode>(o.i(0)));
        ctx.fault("island_mode_change");
    }
    (void)slave;
}

// ---- S01: reported solution satisfies conservation and every element's law -------------------------
struct Before { double p0, p1; bool ov; };

void checkLaws(BasicNet& net, const std::vector<Before>& before, double dt, Ctx& ctx) {
    for (size_t k = 0; k < net.links.size(); ++k) {
        GunnsBasicLink* l = net.links[k];
        const double dp = l->getPotentialVector()[0] - l->getPotentialVector()[1];
        const double scaleP = std::fabs(l->getPotentialVector()[0]) + std::fabs(l->getPotentialVector()[1]);
        const double block = l->mMalfBlockageFlag ? 1.0 - l->mMalfBlockageValue : 1.0;
        double want = 0, scale = 1e-9;
        switch (net.type[k]) {
            case BasicNet::COND: {
                double g = net.g[k] * block;
                g = std::min(std::max(g, 0.0), 1e15);
                want = g * dp; scale += g * scaleP; break; }
            case BasicNet::POT: {
                double g = net.g[k] * block, s = net.s[k];
                want = g * (dp + s); scale += g * (scaleP + std::fabs(s)); break; }
            case BasicNet::CAP: {
                double c = net.g[k] / dt;
                want = c * (dp - (before[k].p0 - before[k].p1)); scale += c * (scaleP + std::fabs(before[k].p0) + std::fabs(before[k].p1)); break; }
            case BasicNet::SRC: {
                want = net.s[k] * block; scale += std::fabs(want); break; }
            case BasicNet::FLOWC: {
                // Never more than the fully open size allows, never against the gradient.
                double g = net.g[k];
                ctx.check(std::fabs(l->getFlux()) <= std::fabs(g * dp) * (1 + 1e-9) + 1e-9, fmt("element-law: flow controller %zu carries %.9g, more than its fully open size allows (%.9g)", k, l->getFlux(), g * dp));
                ctx.check(l->getFlux() * dp >= -1e-9, fmt("element-law: flow controller %zu flows against the gradient", k));
                continue; }
            default: {
                SimLink* s = static_cast<SimLink*>(l);
                want = s->getAdmittanceMatrix()[0] * dp + s->getSourceVector()[1]; scale += s->base * scaleP + std::fabs(want); break; }
        }
        ctx.check(std::fabs(l->getFlux() - want) <= 1e-9 * scale + 1e-12, fmt("element-law: link %zu (type %d) flux %.12g, its law gives %.12g", k, net.type[k], l->getFlux(), want));
        ctx.logd("flux", l->getFlux());
    }
}

void kirchhoff(BasicNet& net, Ctx& ctx, bool balance = true) {
    std::vector<double> in(net.n + 1, 0.0), out(net.n + 1, 0.0), scale(net.n + 1, 1e-9), gsum(net.n + 1, 0.0);
    std::vector<bool> gr = net.grounded();
    double big = 0;
    for (int i = 0; i < net.n; ++i) big = std::max(big, std::fabs(net.net.getPotentialVector()[i]));
    for (size_t k = 0; k < net.links.size(); ++k) {
        GunnsBasicLink* l = net.links[k];
        const int a = l->getNodeMap()[0], b = l->getNodeMap()[1];
        const double f = l->getFlux(), g = std::fabs(l->getAdmittanceMatrix()[0]);
        if (f > 0) { out[a] += f; in[b] += f; } else { out[b] -= f; in[a] -= f; }
        const double s = g * (std::fabs(l->getPotentialVector()[0]) + std::fabs(l->getPotentialVector()[1])) + std::fabs(f) + std::fabs(l->getSourceVector()[0]);
        scale[a] += s; scale[b] += s; gsum[a] += g; gsum[b] += g;
    }
    for (int i = 0; i < net.n; ++i) {
        ctx.check(near(net.nodes[i].getInflux(), in[i], 1e-9, 1e-12) && near(net.nodes[i].getOutflux(), out[i], 1e-9, 1e-12),
                  fmt("node-flows: node %d collected in %.12g out %.12g, its links carried in %.12g out %.12g", i, net.nodes[i].getInflux(), net.nodes[i].getOutflux(), in[i], out[i]));
        if (!balance || !gr[i] || net.anyOverride() || big > 1e10) continue;
        const double bal = in[i] - out[i];
        ctx.check(std::fabs(bal) <= 1e-7 * scale[i] + 1e-11 + 1e-12 * big * gsum[i], fmt("kirchhoff: node %d has net flux %.9g (throughput scale %.9g) in a converged solution", i, bal, scale[i]));
    }
}

/// Checks the reported potentials against every judgeable row of the assembled equations.
void checkEquations(BasicNet& net, Ctx& ctx, const char* oracle) {
    std::vector<bool> gr = net.grounded();
    std::vector<double> A, b; net.assemble(A, b);
    double big = 0;
    for (int i = 0; i < net.n; ++i) big = std::max(big, std::fabs(net.net.getPotentialVector()[i]));
    // An island that floated under a source has reached astronomic potentials: only roundoff is left.
    if (big > 1e10) { ctx.probe("runaway_floating_potential_not_judged"); return; }
    for (int i = 0; i < net.n; ++i) {
        if (!gr[i]) { ctx.probe("floating_row_skipped"); continue; }
        double res = -b[i], sc = std::fabs(b[i]) + 1e-9, row = 0;
        for (int j = 0; j < net.n; ++j) { double t = A[i * net.n + j] * net.net.getPotentialVector()[j]; res += t; sc += std::fabs(t); row += std::fabs(A[i * net.n + j]); }
        ctx.check(finite(res) && std::fabs(res) <= 1e-7 * sc + 1e-11 + 1e-12 * row * big, fmt("%s: the reported potentials miss node %d's equation by %.9g (scale %.9g)", oracle, i, res, sc));
    }
}

void checkPorts(BasicNet& net, Ctx& ctx, const char* why) {
    for (size_t k = 0; k < net.links.size(); ++k) for (int q = 0; q < 2; ++q) {
        const int node = net.links[k]->getNodeMap()[q];
        const double want = node < net.n ? net.net.getPotentialVector()[node] : 0.0;
        ctx.check(net.links[k]->getPotentialVector()[q] == want, fmt("port-potential: link %zu port %d does not hold node %d's potential (%s)", k, q, node, why));
    }
    for (int i = 0; i < net.n; ++i) ctx.check(net.nodes[i].getPotential() == net.net.getPotentialVector()[i], fmt("port-potential: node %d differs from the solution vector (%s)", i, why));
    ctx.check(net.nodes[net.n].getPotential() == 0.0, "ground: the ground node is not at zero potential");
}

/// What the solver tells the nodes that asked for their network capacitance, against the system of the step's
/// first solution (later minor steps must not lose it).
void checkCapacitance(BasicNet& net, const std::vector<double>& request, const std::vector<double>& firstG, double dt, Ctx& ctx) {
    const int n = net.n;
    bool flowc = false;
    for (size_t k = 0; k < net.links.size(); ++k) flowc = flowc || (net.type[k] == BasicNet::FLOWC && net.links[k]->isNonLinear());
    if (flowc && net.net.mLastMinorStep > 1) { ctx.probe("capacitance_system_unknown"); return; }
    std::vector<double> A, b; net.assemble(A, b);
    for (size_t k = 0; k < net.links.size(); ++k) if (SimLink* q = net.sim(k)) {
        const double d = firstG[k] - q->getAdmittanceMatrix()[0];
        const int x = q->getNodeMap()[0], y = q->getNodeMap()[1];
        if (x < n) A[x * n + x] += d;
        if (y < n) A[y * n + y] += d;
        if (x < n && y < n) { A[x * n + y] -= d; A[y * n + x] -= d; }
    }
    std::vector<bool> gr = net.grounded();
    double big = 0, diag = 0;
    for (int i = 0; i < n; ++i) { big = std::max(big, std::fabs(net.net.getPotentialVector()[i])); if (gr[i]) { diag = std::max(diag, A[i * n + i]); if (A[i * n + i] > 0) big = std::max(big, std::fabs(b[i]) / A[i * n + i]); } }
    for (int i = 0; i < n; ++i) {
        if (!(request[i] > DBL_EPSILON)) { ctx.check(net.nodes[i].getNetworkCapacitance() == 0.0, fmt("network-capacitance: node %d reports a capacitance nobody asked for", i)); continue; }
        ctx.check(net.nodes[i].getNetworkCapacitanceRequest() == 0.0, fmt("network-capacitance: node %d's request is still pending after a solution", i));
        if (!gr[i]) continue;
        // Gauss-Seidel-free dense solve of A x = e_i over the grounded nodes
        std::vector<int> id; for (int j = 0; j < n; ++j) if (gr[j]) id.push_back(j);
        const int m = (int)id.size();
        std::vector<double> M(m * m), x(m, 0.0);
        for (int r = 0; r < m; ++r) { for (int c = 0; c < m; ++c) M[r * m + c] = A[id[r] * n + id[c]]; if (id[r] == i) x[r] = request[i]; }
        bool ok = true;
        for (int c = 0; c < m && ok; ++c) {
            if (!(M[c * m + c] > 1e-9 * diag)) { ok = false; break; }
            for (int r = c + 1; r < m; ++r) { const double f = M[r * m + c] / M[c * m + c]; if (f == 0) continue; for (int j = c; j < m; ++j) M[r * m + j] -= f * M[c * m + j]; x[r] -= f * x[c]; }
        }
        if (!ok) { ctx.probe("capacitance_ill_conditioned"); continue; }
        for (int r = m - 1; r >= 0; --r) { for (int c = r + 1; c < m; ++c) x[r] -= M[r * m + c] * x[c]; x[r] /= M[r * m + r]; }
        double self = 0; for (int r = 0; r < m; ++r) if (id[r] == i) self = x[r];
        // rounding of the potentials the two solutions are the difference of, through the network's resistances
        const double noise = 1e-11 * (big + self) * std::max(1.0, diag * self / request[i]) + 1e-14;
        if (self < 1e4 * noise) { ctx.probe("capacitance_below_rounding"); continue; }
        ctx.probe(net.net.mLastMinorStep > 1 ? "capacitance_checked_nonlinear" : "capacitance_checked");
        const double want = dt * request[i] / self;
        ctx.check(near(net.nodes[i].getNetworkCapacitance(), want, 1e-5 + 2 * noise / self, 0.0), fmt("network-capacitance: node %d reports %.9g, a unit of flux moves its potential by %.9g (capacitance %.9g)", i, net.nodes[i].getNetworkCapacitance(), self / request[i], want));
        const double* dp = net.nodes[i].getNetCapDeltaPotential();
        double weak = diag; for (int r = 0; r < m; ++r) for (int c = 0; c < m; ++c) { const double g = std::fabs(A[id[r] * n + id[c]]); if (g > 0) weak = std::min(weak, g); }
        const double far = 1e-14 * (big + self) * diag / weak;            // other nodes may hang on far weaker links
        for (int r = 0; r < m; ++r) ctx.check(std::fabs(dp[id[r]] - x[r]) <= 1e-5 * self + 2 * noise + far, fmt("network-capacitance: node %d is told a flux of %.3g moves node %d by %.9g, it would move by %.9g", i, request[i], id[r], dp[id[r]], x[r]));
    }
}

void genS01(Rng& r, Plan& p, bool deep) {
    std::vector<int> kinds;
    for (int t : {BasicNet::COND, BasicNet::POT, BasicNet::SRC, BasicNet::CAP}) if (r.chance(0.75)) kinds.push_back(t);
    if (r.chance(0.35)) kinds.push_back(BasicNet::FLOWC);
    if (r.chance(0.5)) kinds.push_back(BasicNet::SIM);
    kinds.push_back(BasicNet::COND);
    genNet(r, p, deep, kinds, r.chance(0.7));
    std::vector<int> on;
    for (int i = 0; i <= 11; ++i) if (r.chance(i == 3 || i >= 10 ? 0.2 : 0.5)) on.push_back(i);
    const double jitter = r.chance(0.2) ? r.logRange(1e-9, 1e-2) : 0.0;
    const int steps = r.irange(4, deep ? 60 : 30);
    const bool vary = r.chance(0.3);
    const double dt = r.pick(std::vector<double>{0.0125, 0.1, 1.0});
    const double rate = r.range(0.05, 0.6), scripts = r.chance(0.5) ? r.range(0.1, 0.6) : 0.0;
    for (int s = 0; s < steps; ++s) {
        while (!on.empty() && r.chance(rate)) genDisturb(r, p, p.geti("nodes"), on);
        while (r.chance(scripts)) genScripts(r, p, 30, 0.3, 0.4, 6);
        p.add("step", {vary ? r.logRange(1e-3, 2.0) : dt * (1 + jitter * r.u())});
    }
    // Faults stop: back to NORMAL running.
    p.add("sor", {0}); p.add("mode", {0}); p.add("run", {0}); p.add("step", {dt}); p.add("step", {dt});
}

void runS01(const Plan& p, Ctx& ctx) {
    HsTap tap;
    BasicNet net;
    net.build(p);
    std::vector<double> slave(net.n, 3.0);
    net.net.setSlavePotentialVector(slave.data());
    int mode = 0; bool paused = false;
    for (const Op& o : p.ops) {
        if (applyDisturbance(net, o, ctx) || applyScript(net, o, ctx)) continue;
        if (o.kind == "mode" || o.kind == "run" || o.kind == "island") {
            applyMode(net, o, ctx, slave);
            if (o.kind == "mode") mode = o.i(0);
            if (o.kind == "run") paused = o.b(0);
            continue;
        }
        if (o.kind == "sor") { net.net.mSorActive = o.b(0); ctx.fault(o.b(0) ? "sor_on" : "sor_off"); continue; }
        if (o.kind == "debug") { net.net.mDebugDesiredStep = o.i(0); net.net.mDebugDesiredSlice = o.i(1); net.net.mDebugDesiredNode = o.i(2); ctx.fault("debug_slice"); continue; }
        if (o.kind != "step") continue;
        const double dt = o.d(0, 0.1);
        std::vector<Before> before;
        for (auto l : net.links) before.push_back(Before{l->getPotentialVector()[0], l->getPotentialVector()[1], false});
        const int fails = net.net.getConvergenceFailCount();
        net.trace.clear();
        std::vector<double> request, firstG;
        for (int i = 0; i < net.n; ++i) request.push_back(net.nodes[i].getNetworkCapacitanceRequest());
        for (size_t i = 0; i < net.links.size(); ++i) firstG.push_back(net.sim(i) ? net.sim(i)->gAt(1) : 0.0);
        net.net.step(dt);
        ctx.advance(dt);
        if (!paused) for (size_t i = 0; i < net.links.size(); ++i) if (SimLink* q = net.sim(i)) q->clearScript();
        if (paused) { ctx.probe("paused_step"); continue; }
        if (mode != 0) { ctx.probe("non_normal_step"); continue; }
        checkPorts(net, ctx, "after a step");
        for (int i = 0; i < net.n; ++i) ctx.logd("p", net.net.getPotentialVector()[i]);
        if (net.net.getConvergenceFailCount() != fails) { ctx.probe("convergence_failure"); continue; }
        const bool sor = net.net.mSorLastIteration >= 0;     // an iterative solution is only as good as its own tolerance
        if (!net.net.mSorActive) checkCapacitance(net, request, firstG, dt, ctx);
        if (sor) ctx.probe("sor_step");
        else if (!net.anyOverride()) {
            checkEquations(net, ctx, "equations");
        } else ctx.probe("override_step");
        for (size_t k = 0; k < net.links.size(); ++k) for (int q = 0; q < 2; ++q) if (net.links[k]->getOverrideVector()[q]) {
            const int node = net.links[k]->getNodeMap()[q];
            int nOv = 0;
            for (auto l : net.links) for (int z = 0; z < 2; ++z) nOv += l->getOverrideVector()[z] && l->getNodeMap()[z] == node;
if (node < net.n && nOv == 1) ctx.check(net.net.getPotentialVector()[node] == (q == 0 ? before[k].p0 : before[k].p1), fmt("override: node %d is at %.9g, link %zu overrides it to %.9g", node, net.net.getPotentialVector()[node], k, q == 0 ? before[k].p0 : before[k].p1));
        }
        checkLaws(net, before, dt, ctx);
        kirchhoff(net, ctx, !sor);
        ctx.state(Ctx::hashStr(fmt("%d/%zu/%d/%d/%d", net.n, net.links.size(), (int)net.trace.size(), (int)net.anyOverride(), p.geti("island"))));
    }
}

// ---- S02: re-using decompositions and splitting islands change nothing ------------------------------
std::vector<int> components(BasicNet& net) {
    Uf uf(net.n);
    std::vector<double> A, b; net.assemble(A, b);
    for (int i = 0; i < net.n; ++i) for (int j = 0; j < net.n; ++j) if (i != j && (A[i * net.n + j] != 0.0)) uf.u(i, j);
    std::vector<int> c(net.n);
    for (int i = 0; i < net.n; ++i) { int m = i; for (int j = 0; j < net.n; ++j) if (uf.f(j) == uf.f(i)) { m = j; break; } c[i] = m; }
    return c;
}

void genS02(Rng& r, Plan& p, bool deep) {
    std::vector<int> kinds{BasicNet::COND, BasicNet::SIM};
    for (int t : {BasicNet::POT, BasicNet::SRC, BasicNet::CAP}) if (r.chance(0.7)) kinds.push_back(t);
    genNet(r, p, deep, kinds, r.chance(0.7));
    std::vector<int> on{4};
    for (int i : {0, 1, 2, 4, 5, 6, 6, 7, 8, 9}) if (r.chance(0.6)) on.push_back(i);
    const double jitter = r.chance(0.2) ? r.logRange(1e-9, 1e-2) : 0.0;
    const int steps = r.irange(4, deep ? 60 : 30);
    const double dt = r.pick(std::vector<double>{0.0125, 0.1, 1.0});
    const bool vary = r.chance(0.2);
    const double rate = r.range(0.02, 0.4);
    for (int s = 0; s < steps; ++s) {
        while (r.chance(rate)) genDisturb(r, p, p.geti("nodes"), on);
        p.add("step", {vary ? r.logRange(1e-3, 2.0) : dt * (1 + jitter * r.u())});
    }
    p.add("mode", {0}); p.add("run", {0}); p.add("step", {dt}); p.add("step", {dt});
}

void runS02(const Plan& p, Ctx& ctx) {
    HsTap tap;
    BasicNet a, b;                       // a: caching, island mode of the plan; b: rebuilds everything, no islands
    a.build(p, false);
    b.build(p, false);
    b.net.setIslandMode(Gunns::OFF);
    std::vector<double> slave;
    for (int i = 0; i < a.n; ++i) slave.push_back(5.0 + i);
    a.net.setSlavePotentialVector(slave.data());
    b.net.setSlavePotentialVector(slave.data());
    Ctx quiet(false);
    int mode = 0, island = p.geti("island"); bool paused = false, enabled = false;
    for (const Op& o : p.ops) {
        if (o.kind == "mode" || o.kind == "run") { applyMode(a, o, ctx, slave); applyMode(b, o, quiet, slave); if (o.kind == "mode") mode = o.i(0); else paused = o.b(0); continue; }
        if (o.kind == "island") { applyMode(a, o, ctx, slave); island = o.i(0); continue; }
        if (o.kind != "step") { if (applyDisturbance(a, o, ctx)) applyDisturbance(b, o, quiet); continue; }
        const double dt = o.d(0, 0.1);
        b.net.setWorstCaseTiming(true); enabled = true;
        const int d0 = a.net.getDecompositionCount(), fails = a.net.getConvergenceFailCount();
        std::vector<Before> before;
        for (auto l : a.links) before.push_back(Before{l->getPotentialVector()[0], l->getPotentialVector()[1], false});
        a.net.step(dt);
        b.net.step(dt);
        ctx.advance(dt);
        if (!paused && mode == 0 && a.net.getDecompositionCount() == d0) ctx.probe("decomposition_reused");
        // the twins share the links' code: judge what the links contributed against their commanded parameters too
        if (!paused && mode == 0 && a.net.getConvergenceFailCount() == fails) checkLaws(a, before, dt, ctx);
        std::vector<bool> gr = a.grounded();
        std::vector<bool> dirtyRow(a.n, false);
        for (int i = 0; i < a.n; ++i) {
            ctx.logd("p", gr[i] ? a.net.getPotentialVector()[i] : 0.0);
            if (!gr[i]) { ctx.probe("floating_row_skipped"); continue; }
            const double x = a.net.getPotentialVector()[i], y = b.net.getPotentialVector()[i];
            ctx.check(near(x, y, 1e-7, 1e-7), fmt("cache-equivalence: node %d has %.12g, a network that rebuilds everything has %.12g (island mode %d)", i, x, y, island));
        }
        for (size_t k = 0; k < a.links.size(); ++k) {
            bool okp = true;
            for (int q = 0; q < 2; ++q) { int nd = a.links[k]->getNodeMap()[q]; okp = okp && (nd >= a.n || gr[nd]); ctx.check(nd == b.links[k]->getNodeMap()[q], "cache-equivalence: port maps differ between twin networks"); }
            if (okp) {
                const double g = std::fabs(a.links[k]->getAdmittanceMatrix()[0]);
                const double sc = g * (std::fabs(a.links[k]->getPotentialVector()[0]) + std::fabs(a.links[k]->getPotentialVector()[1])) + 1;
                ctx.check(near(a.links[k]->getFlux(), b.links[k]->getFlux(), 1e-6, 1e-6 * sc), fmt("cache-equivalence: link %zu flux %.9g, rebuilt network %.9g", k, a.links[k]->getFlux(), b.links[k]->getFlux()));
            }
        }
        if (!paused && mode == 0 && island != 0) {
            std::vector<int> c = components(a);
            int count = 0, big = 0;
            for (int i = 0; i < a.n; ++i) {
                std::vector<int> want; for (int j = 0; j < a.n; ++j) if (c[j] == c[i]) want.push_back(j);
                count += c[i] == i; big = std::max(big, (int)want.size());
                const std::vector<int>* got = a.nodes[i].getIslandVector();
                ctx.check(got && *got == want, fmt("islands: node %d is told a wrong island (size %zu, expected %zu)", i, got ? got->size() : 0, want.size()));
            }
            ctx.probe(count > 1 ? "several_islands" : "one_island");
            ctx.state(Ctx::hashStr(fmt("%d/%d/%d/%d", a.n, count, big, island)));
        } else ctx.state(Ctx::hashStr(fmt("m%d r%d i%d", mode, (int)paused, island)));
        (void)dirtyRow; (void)enabled;
    }
}

// ---- S03/S05: minor-step protocol against an executable reference model -----------------------------
/// Reference model of the major step, written from the documented protocol, with its own dense solver.
struct RefNet {
    int n, limit, dlimit; double tol;
    struct L { int p0, p1; double g, src; bool nl; double v0, v1; bool flag; };
    std::vector<L> links;
    std::vector<double> P, minorP, majorP;
    bool pending, ambiguous;
    int failCount, resetFails, mode, island, lastMode, lastIsland; bool paused;
    std::vector<SlEvent> ev;
    RefNet() : n(0), limit(0), dlimit(0), tol(0), pending(true), ambiguous(false), failCount(0), resetFails(0), mode(0), island(0), lastMode(0), lastIsland(0), paused(false) {}
    void note(char w, int k, int conv, int m, int r = 0) { ev.push_back(SlEvent{w, k, conv, m, links[k].v0, links[k].v1, r}); }
    bool solve() {
        std::vector<double> A(n * n, 0.0), b(n, 0.0);
        for (auto& l : links) {
            if (l.p0 < n) { A[l.p0 * n + l.p0] += l.g; b[l.p0] -= l.src; }
            if (l.p1 < n) { A[l.p1 * n + l.p1] += l.g; b[l.p1] += l.src; }
            if (l.p0 < n && l.p1 < n) { A[l.p0 * n + l.p1] -= l.g; A[l.p1 * n + l.p0] -= l.g; }
        }
        std::vector<int> idx(n);
        for (int c = 0; c < n; ++c) {
            int piv = c; for (int i = c + 1; i < n; ++i) if (std::fabs(A[i * n + c]) > std::fabs(A[piv * n + c])) piv = i;
            if (std::fabs(A[piv * n + c]) < 1e-7) return false;
            if (piv != c) { for (int j = 0; j < n; ++j) std::swap(A[c * n + j], A[piv * n + j]); std::swap(b[c], b[piv]); }
            for (int i = c + 1; i < n; ++i) { double f = A[i * n + c] / A[c * n + c]; if (f == 0) continue; for (int j = c; j < n; ++j) A[i * n + j] -= f * A[c * n + j]; b[i] -= f * b[c]; }
        }
        for (int i = n - 1; i >= 0; --i) { double s = b[i]; for (int j = i + 1; j < n; ++j) s -= A[i * n + j] * P[j]; P[i] = s / A[i * n + i]; }
        return true;
    }
    void output() { for (auto& l : links) { l.v0 = l.p0 < n ? P[l.p0] : 0.0; l.v1 = l.p1 < n ? P[l.p1] : 0.0; } }
};

void genS03(Rng& r, Plan& p, bool deep, bool modes) {
    genNet(r, p, deep, {BasicNet::SIM}, false);
    p.set("tol", 1e-4);
    p.set("minorLimit", r.irange(1, 14));
    p.set("decompLimit", r.chance(0.7) ? 60 : r.irange(1, 6));
    const int n = p.geti("nodes");
    const int steps = r.irange(4, deep ? 40 : 20);
    int links = (int)p.ops.size();
    // swarm: which scripts occur in this run
    const double pv = r.chance(0.85) ? r.range(0.1, 0.9) : 0.0, pm = r.chance(0.7) ? r.range(0.1, 0.8) : 0.0, pa = r.chance(0.5) ? r.range(0.1, 0.6) : 0.0;
    const double pd = r.range(0, 0.8), pr = r.range(0, 0.6);
    const bool forever = r.chance(0.25);
    for (int s = 0; s < steps; ++s) {
        if (r.chance(pv)) for (int k = r.irange(1, 3); k > 0; --k) {
            std::vector<double> v{(double)r.irange(0, links - 1)};
            const int len = forever && r.chance(0.2) ? 40 : r.irange(1, 8);
            for (int i = 0; i < len; ++i) v.push_back(r.chance(pr) ? (double)GunnsBasicLink::REJECT : r.chance(pd) ? (double)GunnsBasicLink::DELAY : (double)GunnsBasicLink::CONFIRM);
            p.add("votes", v);
        }
        if (r.chance(pm)) {
            std::vector<double> v{(double)r.irange(0, links - 1)};
            const int len = forever && r.chance(0.2) ? 40 : r.irange(1, 8);
            for (int i = 0; i < len; ++i) v.push_back(r.chance(0.3) ? 1.0 : r.range(0.5, 2.0));
            p.add("mult", v);
        }
        if (r.chance(pa)) { std::vector<double> v{(double)r.irange(0, links - 1)}; for (int i = r.irange(1, 8); i > 0; --i) v.push_back(r.chance(0.3) ? 0.0 : r.range(-5, 5)); p.add("adds", v); }
        if (r.chance(0.3)) p.add("param", {(double)r.irange(0, links - 1), r.logRange(0.05, 20.0), r.range(-5, 5)});
        if (r.chance(0.1)) p.add("resetfail", {(double)r.irange(0, links - 1)});
        if (r.chance(0.1)) p.add("dirty", {(double)r.irange(0, links - 1)});
        if (r.chance(0.06)) p.add("port", {(double)r.irange(0, links - 1), (double)r.irange(0, 1), (double)r.irange(0, n)});
        if (r.chance(0.05)) p.add("island", {(double)r.irange(0, 2)});
        if (modes && r.chance(0.3)) p.add("mode", {(double)r.irange(0, 2)});
        if (modes && r.chance(0.2)) p.add("run", {(double)r.irange(0, 1)});
        if (modes && r.chance(0.3)) { std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(r.range(-50, 100)); p.add("slave", v); }
        p.add("step", {0.1});
    }
    p.add("mode", {0}); p.add("run", {0}); p.add("step", {0.1}); p.add("step", {0.1});
}

void runS03(const Plan& p, Ctx& ctx) {
    HsTap tap;
    BasicNet net;
    net.build(p);
    RefNet ref;
    ref.n = net.n; ref.limit = p.geti("minorLimit", 20); ref.dlimit = p.geti("decompLimit", 20); ref.tol = p.get("tol", 1e-6);
    ref.P.assign(net.n, 0.0); ref.minorP = ref.majorP = ref.P; ref.island = ref.lastIsland = p.geti("island");
    std::vector<SimLink*> sl;
    for (size_t k = 0; k < net.links.size(); ++k) {
        SimLink* s = net.sim(k); if (!s) return;
        sl.push_back(s);
        ref.links.push_back(RefNet::L{s->getNodeMap()[0], s->getNodeMap()[1], 0.0, 0.0, s->nonLinear, 0.0, 0.0, false});
    }
    if (sl.empty()) return;
    bool linear = true;
    for (auto s : sl) linear = linear && !s->nonLinear;
    std::vector<double> slave(net.n, 0.0);
    net.net.setSlavePotentialVector(slave.data());
    for (const Op& o : p.ops) {
        const size_t k = static_cast<size_t>(std::max(0, o.i(0))) % sl.size();
        if (o.kind == "votes")     { sl[k]->votes.clear(); for (size_t i = 1; i < o.a.size(); ++i) sl[k]->votes.push_back(o.i(i)); ctx.fault("vote_script"); continue; }
        if (o.kind == "mult")      { sl[k]->mult.clear(); for (size_t i = 1; i < o.a.size(); ++i) sl[k]->mult.push_back(o.d(i)); ctx.fault("admittance_script"); continue; }
        if (o.kind == "adds")      { sl[k]->adds.assign(o.a.begin() + (o.a.empty() ? 0 : 1), o.a.end()); ctx.fault("source_script"); continue; }
        if (o.kind == "param")     { sl[k]->base = o.d(1); sl[k]->src = o.d(2); ctx.fault("parameter_step"); continue; }
        if (o.kind == "resetfail") { sl[k]->resetFails = true; ctx.fault("link_reset_failure"); continue; }
        if (o.kind == "dirty")     { sl[k]->dirty = true; ctx.fault("spurious_update"); continue; }
        if (o.kind == "slave")     { if (ref.mode != 2) continue; for (int i = 0; i < net.n; ++i) slave[i] = o.d(i); net.net.setSlavePotentialVector(slave.data()); ctx.fault("slave_vector"); continue; }
        if (o.kind == "island")    { net.net.setIslandMode(static_cast<Gunns::IslandMode>(o.i(0))); ref.island = o.i(0); ctx.fault("island_mode_change"); continue; }
        if (o.kind == "mode" || o.kind == "run") { applyMode(net, o, ctx, slave); if (o.kind == "mode") ref.mode = o.i(0); else ref.paused = o.b(0); continue; }
        if (o.kind == "port") {
            if (sl[k]->setPort(o.i(1), o.i(2), "sim") && (ref.links[k].p0 != sl[k]->getNodeMap()[0] || ref.links[k].p1 != sl[k]->getNodeMap()[1])) {
                ref.links[k].p0 = sl[k]->getNodeMap()[0]; ref.links[k].p1 = sl[k]->getNodeMap()[1]; ctx.fault("port_move"); ref.links[k].flag = true;
            }
            continue;
        }
        if (o.kind != "step") continue;

        // ---- the real step
        net.trace.clear();
        std::vector<double> pots = nodePots(net);
        net.net.step(0.1);
        ctx.advance(0.1);

        // ---- the reference step
        ref.ev.clear();
        bool converged = false, limited = false;
        // A change of solver or island mode makes the next solution start from a fresh decomposition.
        if (ref.mode != ref.lastMode || ref.island != ref.lastIsland) ref.pending = true;
        ref.lastMode = ref.mode; ref.lastIsland = ref.island;
        if (!ref.paused) {
            const int nl = (int)ref.links.size();
            for (int i = 0; i < nl; ++i) ref.note('i', i, 0, 0);
            int limit = ref.limit, conv = 0, decomps = 0, result = GunnsBasicLink::CONFIRM;
            const bool iterate = !linear && ref.mode == 0;
            if (!iterate) { limit = 1; converged = true; }
            for (int m = 1; m <= limit; ++m) {
                if (result != GunnsBasicLink::DELAY) {
                    for (int i = 0; i < nl; ++i) {
                        RefNet::L& l = ref.links[i];
                        if (m == 1) ref.note('s', i, 0, 1); else if (l.nl) ref.note('m', i, 0, m); else continue;
                        const double g = sl[i]->gAt(m);
                        if (g != l.g || sl[i]->dirty) l.flag = true;
                        l.g = g; l.src = sl[i]->srcAt(m);
                    }
                    for (int i = 0; i < nl; ++i) { if (ref.links[i].flag) ref.pending = true; ref.links[i].flag = false; }
                    if (ref.mode == 0) {
                        if (ref.pending) {
                            if (decomps >= ref.dlimit) { converged = false; limited = true; break; }
                            ++decomps; ref.pending = false;
                        }
                        if (!ref.solve()) { ctx.probe("ungrounded_network_not_judged"); return; }
                    } else if (ref.mode == 2) { ref.P = slave; ref.minorP = slave; }
                    if (ref.mode != 1) ref.output();
                }
                if (!iterate) break;
                bool within = true;
                for (int i = 0; i < ref.n; ++i) {
                    const double d = std::fabs(ref.P[i] - ref.minorP[i]);
                    if (d > ref.tol) within = false;
                    if (std::fabs(d - ref.tol) < 1e-7 + 1e-7 * std::fabs(ref.P[i])) { ctx.probe("tolerance_boundary_not_judged"); return; }
                }
                if (result == GunnsBasicLink::DELAY || within) ++conv;
                result = GunnsBasicLink::CONFIRM;
                for (int i = 0; i < nl; ++i) if (ref.links[i].nl) {
                    int v = sl[i]->voteAt(m);
                    ref.note('c', i, conv, m, v);
                    if (v == GunnsBasicLink::REJECT) result = v;
                    else if (v == GunnsBasicLink::DELAY && conv > 0 && result != GunnsBasicLink::REJECT) result = v;
                }
                if (result == GunnsBasicLink::REJECT) {
                    ctx.probe(conv > 0 ? "reject_after_convergence" : "reject_before_convergence");
                    ref.P = ref.minorP; ref.output();
                    for (int i = 0; i < nl; ++i) if (ref.links[i].nl) { ref.note('r', i, conv, m); if (sl[i]->resetFails) ++ref.resetFails; }
                    conv = 0;
                } else {
                    if (result == GunnsBasicLink::DELAY) ctx.probe("delay_honoured");
                    ref.minorP = ref.P;
                    if (result == GunnsBasicLink::CONFIRM && conv > 0) { converged = true; break; }
                }
            }
            if (converged) {
                for (int i = nl - 1; i >= 0; --i) ref.note('f', i, 0, 0);
                for (int i = nl - 1; i >= 0; --i) ref.note('o', i, 0, 0);
            } else {
                ++ref.failCount;
                ctx.probe(limited ? "decomposition_limit_hit" : "minor_step_limit_hit");
                ref.P = ref.majorP; ref.output();
            }
            ref.majorP = ref.P;
        }

        // ---- comparison
        double maxP = 0;
        for (double v : ref.P) maxP = std::max(maxP, std::fabs(v));
        for (auto& e : ref.ev) maxP = std::max(maxP, std::max(std::fabs(e.p0), std::fabs(e.p1)));
        const std::vector<SlEvent>& ev = net.trace;
        if (ctx.verbose) for (auto& e : ev) ctx.log(fmt("%c link=%d conv=%d m=%d p=%.9g,%.9g r=%d", e.what, e.link, e.conv, e.step, e.p0, e.p1, e.result));
        for (size_t i = 0; i < std::min(ev.size(), ref.ev.size()); ++i) {
            const SlEvent &x = ev[i], &y = ref.ev[i];
            ctx.check(x.what == y.what && x.link == y.link && x.step == y.step && (x.what != 'c' || x.conv == y.conv),
                      fmt("protocol: event %zu of the step is '%c' link %d minor %d conv %d; the protocol calls for '%c' link %d minor %d conv %d", i, x.what, x.link, x.step, x.conv, y.what, y.link, y.step, y.conv));
            if (ref.mode != 1 && x.what != 'i' && x.what != 's' && x.what != 'o')
                ctx.check(near(x.p0, y.p0, 1e-6, 1e-6 * (1 + maxP)) && near(x.p1, y.p1, 1e-6, 1e-6 * (1 + maxP)),
                      fmt("protocol-potential: at event %zu ('%c' minor %d) link %d sees %.9g,%.9g; reference %.9g,%.9g", i, x.what, x.step, x.link, x.p0, x.p1, y.p0, y.p1));
        }
        ctx.check(ev.size() == ref.ev.size(), fmt("protocol: the step made %zu link calls, the protocol calls for %zu", ev.size(), ref.ev.size()));
        if (ref.mode == 0 || ref.paused) for (int i = 0; i < net.n; ++i) {
            ctx.logd("p", net.net.getPotentialVector()[i]);
            ctx.check(near(net.net.getPotentialVector()[i], ref.P[i], 1e-6, 1e-6 * (1 + maxP)), fmt("protocol-result: node %d ends the step at %.9g, reference %.9g", i, net.net.getPotentialVector()[i], ref.P[i]));
        }
        if (ref.paused) {
            std::vector<double> now = nodePots(net);
            ctx.check(now == pots, "pause: a paused network changed a node potential");
            ctx.probe("paused_step");
        } else if (ref.mode == 2) {
            for (int i = 0; i < net.n; ++i) ctx.check(net.nodes[i].getPotential() == slave[i], fmt("slave: node %d has %.9g, the supplied vector has %.9g", i, net.nodes[i].getPotential(), slave[i]));
            checkPorts(net, ctx, "in slave mode"); ctx.probe("slave_step");
        } else if (ref.mode == 1) {
            std::vector<double> now = nodePots(net);
            ctx.check(now == pots, "dummy: the solver changed a node potential in dummy mode");
            ctx.probe("dummy_step");
        } else checkPorts(net, ctx, "after a step");
        ctx.check(net.net.getConvergenceFailCount() == ref.failCount, fmt("failure-count: the network reports %d convergence failures, %d happened", net.net.getConvergenceFailCount(), ref.failCount));
        ctx.check(net.net.getLinkResetStepFailCount() == ref.resetFails, fmt("failure-count: the network reports %d link reset failures, %d happened", net.net.getLinkResetStepFailCount(), ref.resetFails));
        ctx.check(tap.countText("failed to converge") == ref.failCount, "failure-report: a convergence failure was not reported exactly once");
        std::string key; for (auto& e : ev) if (e.what == 'c' || e.what == 'r') { key += e.what; key += char('0' + e.result); }
        ctx.state(key);
        for (auto s : sl) s->clearScript();
    }
}

// ---- S04: numerical faults are contained and recovered from -----------------------------------------
void genS04(Rng& r, Plan& p, bool deep) {
    std::vector<int> kinds{BasicNet::SIM, BasicNet::SIM, BasicNet::COND};
    for (int t : {BasicNet::POT, BasicNet::SRC, BasicNet::CAP}) if (r.chance(0.5)) kinds.push_back(t);
    genNet(r, p, deep, kinds, r.chance(0.4));
    p.set("minorLimit", r.irange(6, 14));
    p.set("decompLimit", r.chance(0.5) ? 60 : r.irange(2, 6));
    const int n = p.geti("nodes");
    const int steps = r.irange(6, deep ? 40 : 20);
    const double rate = r.range(0.1, 0.5);
    std::vector<int> on{4};
    for (int i : {0, 1, 6, 4}) if (r.chance(0.5)) on.push_back(i);
    std::vector<int> kindsOn;
    for (int i = 0; i < 5; ++i) if (r.chance(0.6)) kindsOn.push_back(i);
    if (kindsOn.empty()) kindsOn.push_back(0);
    for (int s = 0; s < steps; ++s) {
        if (r.chance(0.2)) genDisturb(r, p, n, on);
        if (r.chance(rate)) {
            const double L = r.irange(0, 30);
            switch (r.pick(kindsOn)) {
                case 0: p.add("linkfault", {L, (double)SimLink::NEG_ADMITTANCE, (double)r.irange(1, 3)}); break;
                case 1: p.add("linkfault", {L, (double)SimLink::THROW, (double)r.irange(1, 3)}); break;
                case 2: { std::vector<double> v{L}; for (int i = 0; i < 30; ++i) v.push_back(GunnsBasicLink::REJECT); p.add("votes", v); break; }
                case 3: { std::vector<double> v{L}; const bool src = r.chance(0.3); for (int i = 0; i < 30; ++i) v.push_back(src ? r.range(-5, 5) : r.range(0.5, 2.0)); p.add(src ? "adds" : "mult", v); break; }
                default: p.add("netcap", {(double)r.irange(0, n - 1), r.logRange(1e-3, 1.0)}); break;
            }
        }
        p.add("step", {0.1});
    }
    for (int i = 0; i < 4; ++i) p.add("step", {0.1});
}

void runS04(const Plan& p, Ctx& ctx) {
    HsTap tap;
    BasicNet net;
    net.build(p);
    if (net.links.empty()) return;
    bool pendingRecovery = false;
    for (const Op& o : p.ops) {
        const size_t k = static_cast<size_t>(std::max(0, o.i(0))) % net.links.size();
        SimLink* s = net.sim(k);
        if (o.kind == "linkfault") { if (s) { s->fault = o.i(1); s->faultAt = o.i(2); } continue; }
        if (applyScript(net, o, ctx)) continue;
        if (o.kind == "island")    { net.net.setIslandMode(static_cast<Gunns::IslandMode>(o.i(0))); ctx.fault("island_mode_change"); continue; }
        if (applyDisturbance(net, o, ctx)) continue;
        if (o.kind != "step") continue;
        bool scripted = false;
        std::vector<int> kinds;
        for (size_t i = 0; i < net.links.size(); ++i) if (SimLink* q = net.sim(i)) scripted = scripted || q->fault || !q->votes.empty() || !q->mult.empty() || !q->adds.empty();
        std::vector<Before> before;
        for (auto l : net.links) before.push_back(Before{l->getPotentialVector()[0], l->getPotentialVector()[1], false});
        const int fails = net.net.getConvergenceFailCount();
        bool threw = false;
        try {
            net.net.step(o.d(0, 0.1));
        } catch (TsNumericalException&) { threw = true; ctx.fault("numerical_exception"); }
        ctx.advance(o.d(0, 0.1));
        const bool failed = net.net.getConvergenceFailCount() != fails;
        if (failed) ctx.fault("convergence_failure");
        for (int i = 0; i < net.n; ++i) {
            ctx.logd("p", net.net.getPotentialVector()[i]);
            ctx.check(finite(net.net.getPotentialVector()[i]) && finite(net.nodes[i].getPotential()), fmt("containment: node %d's potential is not finite after a %s step", i, threw ? "faulted" : "normal"));
        }
        if (!scripted) {
            ctx.check(!threw, "recovery: a step without any fault raised a numerical exception");
            if (failed) {
                // More rebuilds than the configured limit can legitimately fail a step only while links change.
                ctx.check(false, "recovery: a step without any fault or vote against it failed to converge");
            }
        }
        if (!threw && !failed) {
            bool spd = true;
            for (auto l : net.links) if (l->getAdmittanceMatrix()[0] < 0) spd = false;
            if (spd) checkEquations(net, ctx, pendingRecovery ? "recovery" : "equations");
            if (spd) checkLaws(net, before, o.d(0, 0.1), ctx);
            if (pendingRecovery) ctx.probe("recovered");
            pendingRecovery = false;
        } else pendingRecovery = true;
        ctx.state(Ctx::hashStr(fmt("%d%d%d/%d/%zu", (int)threw, (int)failed, (int)scripted, net.n, net.links.size())));
        for (size_t i = 0; i < net.links.size(); ++i) if (SimLink* q = net.sim(i)) q->clearScript();
    }
}

// ---- S06: dynamic port mapping ----------------------------------------------------------------------
void genS06(Rng& r, Plan& p, bool deep) {
    genNet(r, p, deep, {BasicNet::COND, BasicNet::CAP, BasicNet::POT, BasicNet::SRC, BasicNet::SIM}, true);
    const int n = p.geti("nodes");
    const int steps = r.irange(4, deep ? 60 : 30);
    for (int s = 0; s < steps; ++s) {
        while (r.chance(0.6)) {
            const double L = r.irange(0, 30);
            switch (r.irange(0, 4)) {
                case 0: p.add("port", {L, (double)r.irange(-1, 3), (double)r.irange(-2, n + 2)}); break;
                case 1: p.add("userport", {L, (double)r.irange(-1, 2), (double)r.irange(-1, n + 1), (double)r.irange(0, 4)}); break;
                case 2: p.add("lock", {L, r.chance(0.4) ? 1.0 : 0.0}); break;
                case 3: p.add("restart", {r.chance(0.1) ? 1.0 : 0.0}); break;
                default: p.add("param", {L, r.logRange(0.01, 10), r.range(-5, 5)}); break;
            }
        }
        p.add("step", {0.1});
    }
}

void runS06(const Plan& p, Ctx& ctx) {
    HsTap tap;
    BasicNet net;
    net.build(p, false);
    if (net.links.empty()) return;
    const int n = net.n;
    struct M { int map[2], def[2]; bool locked; int ctl, sel, node; };
    std::vector<M> model;
    for (auto l : net.links) model.push_back(M{{l->getNodeMap()[0], l->getNodeMap()[1]}, {l->getNodeMap()[0], l->getNodeMap()[1]}, false, (int)GunnsBasicLink::READY, -1, -1});
    auto rules = [&](const M& m, int port, int node) {
        if (port < 0 || port > 1 || node < 0 || node > n) return false;
        if (node != n && m.map[1 - port] == node) return false;    // two ports of a link never share a non-ground node
        return !m.locked;
    };
    auto compare = [&](const char* when) {
        for (size_t k = 0; k < model.size(); ++k) for (int q = 0; q < 2; ++q) {
            ctx.check(net.links[k]->getNodeMap()[q] == model[k].map[q], fmt("port-map: %s link %zu port %d is on node %d, expected %d", when, k, q, net.links[k]->getNodeMap()[q], model[k].map[q]));
            ctx.check(net.links[k]->mNodes[q] == &net.nodes[model[k].map[q]], fmt("port-map: %s link %zu port %d points at the wrong node object", when, k, q));
        }
    };
    for (const Op& o : p.ops) {
        const size_t k = static_cast<size_t>(std::max(0, o.i(0))) % net.links.size();
        GunnsBasicLink* l = net.links[k];
        M& m = model[k];
        if (o.kind == "port") {
            const bool ok = rules(m, o.i(1), o.i(2));
            const bool got = l->setPort(o.i(1), o.i(2), "sim", true);
            ctx.fault(ok ? "port_move" : "port_move_refused");
            ctx.check(got == ok, fmt("port-rules: moving link %zu port %d to node %d was %s, the rules say %s", k, o.i(1), o.i(2), got ? "accepted" : "refused", ok ? "accept" : "refuse"));
            if (ok) m.map[o.i(1)] = o.i(2);
            compare("after a move");
        } else if (o.kind == "userport") {
            l->mUserPortSelect = m.sel = o.i(1); l->mUserPortSelectNode = m.node = o.i(2); m.ctl = o.i(3);
            l->mUserPortSetControl = static_cast<GunnsBasicLink::UserPortControl>(m.ctl);
            ctx.fault("user_port_command");
        } else if (o.kind == "lock") { if (o.b(1)) l->lockNodeMap(); else l->unlockNodeMap(); m.locked = o.b(1); ctx.fault(o.b(1) ? "lock" : "unlock"); }
        else if (o.kind == "restart") {
            if (!o.b(0)) continue;
            net.net.restart(); ctx.fault("restart");
            // A restart puts every port back on its default node, unless the link's map is locked.
            for (auto& q : model) if (!q.locked) { q.map[0] = q.def[0]; q.map[1] = q.def[1]; }
            for (size_t i = 0; i < model.size(); ++i) { M& q = model[i]; q.ctl = net.links[i]->mUserPortSetControl; q.sel = net.links[i]->mUserPortSelect; q.node = net.links[i]->mUserPortSelectNode; }
            compare("after a restart");
        } else if (o.kind == "param") applyDisturbance(net, o, ctx);
        else if (o.kind == "step") {
            for (size_t i = 0; i < model.size(); ++i) {
                M& q = model[i];
                if (q.ctl == GunnsBasicLink::DEFAULT || q.ctl == GunnsBasicLink::GROUND || q.ctl == GunnsBasicLink::EXECUTE) {
                    bool ok = true; int node = q.node;
                    if (q.ctl == GunnsBasicLink::DEFAULT) { if (q.sel < 0 || q.sel > 1) ok = false; else node = q.def[q.sel]; }
                    if (q.ctl == GunnsBasicLink::GROUND) node = n;
                    ok = ok && rules(q, q.sel, node);
                    if (ok) q.map[q.sel] = node;
                    q.ctl = ok ? GunnsBasicLink::READY : GunnsBasicLink::FAILED;
                    q.sel = q.node = -1;
                    ctx.probe(ok ? "user_command_ok" : "user_command_failed");
                }
            }
            net.net.step(o.d(0, 0.1)); ctx.advance(o.d(0, 0.1));
            compare("after a step");
            for (size_t i = 0; i < model.size(); ++i) {
                ctx.check((int)net.links[i]->mUserPortSetControl == model[i].ctl, fmt("user-command: link %zu reports command status %d, expected %d", i, (int)net.links[i]->mUserPortSetControl, model[i].ctl));
            }
            checkPorts(net, ctx, "after port moves");
            checkEquations(net, ctx, "stale-map");
            for (int i = 0; i < n; ++i) ctx.logd("p", net.net.getPotentialVector()[i]);
            std::string key; for (auto& q : model) { key += char('0' + q.map[0]); key += char('0' + q.map[1]); }
            ctx.state(key);
        }
    }
}

const std::vector<std::string> REAL{"core/Gunns.cpp solver", "core/GunnsBasicLink and GunnsBasicNode", "basic conductor/capacitor/potential/source/flow-controller links", "Cholesky LDU solver", "minor step log"};
const std::vector<std::string> STUB{"SimLink: fault-injecting link on the public link interface", "health & status manager: recording tap", "clock: GunnsInfraFunctions' Trick-less constant clock"};
const std::vector<std::string> ASSUME{"CPU solver only (the CUDA solvers do not build here)", "conductances within 1e-5..1e3; floating islands (no path to ground) are not judged on absolute potential"};

Register r1(Property{"S01", "Networks of 1-10 nodes with basic links; disturbances between steps.", "nodes/links/minor-step count/override/island mode tuples", {{"kirchhoff", 1, genS01, runS01}}, 150000, 15000000, REAL, STUB, ASSUME});
Register r2(Property{"S02", "Twin networks fed the same schedule, one rebuilding everything each step.", "nodes/island count/largest island/island mode tuples", {{"twin", 1, genS02, runS02}}, 150000, 15000000, REAL, STUB, ASSUME});
Register r3(Property{"S03", "Every link call of every major step is compared with the reference model.", "vote/reject sequences of one major step", {{"protocol", 1, [](Rng& r, Plan& p, bool d) { genS03(r, p, d, false); }, runS03}}, 120000, 15000000, REAL, STUB, ASSUME});
Register r4(Property{"S04", "Faulted steps followed by clean steps.", "exception/failure/fault/size tuples", {{"faults", 1, genS04, runS04}}, 150000, 15000000, REAL, STUB, ASSUME});
Register r5(Property{"S05", "Solver and run mode changes at any step, against the reference model.", "vote/reject sequences of one major step", {{"modes", 1, [](Rng& r, Plan& p, bool d) { genS03(r, p, d, true); }, runS03}}, 150000, 15000000, REAL, STUB, ASSUME});
Register r6(Property{"S06", "Port moves, user commands, locks and restarts against a port-map model.", "port maps of the whole network", {{"ports", 1, genS06, runS06}}, 150000, 15000000, REAL, STUB, ASSUME});
} // namespace
} // namespace dst
