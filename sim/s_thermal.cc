// T01: thermal networks keep an exact energy ledger and the second law under disturbances.
#include "trace.hh"
#include "thermnet.hh"
#include <cstring>

namespace dst {
namespace {

void genT(Rng& r, Plan& p, bool deep, bool passive) {
    const int n = r.irange(1, deep ? 9 : 6);
    p.set("nodes", n); p.set("island", r.irange(0, 2)); p.set("passive", passive);
    const bool pcb = !passive && r.chance(0.4);
    for (int i = 0; i < n; ++i) {
        if (pcb && r.chance(0.4)) {
            const double f = r.chance(0.4) ? 0.0 : r.chance(0.4) ? 1.0 : r.u();
            const double tpc = r.range(270, 330);
            p.add("pcb", {(double)i, r.logRange(0.1, 50), tpc + r.range(-30, 30), f, r.logRange(20, 400), r.range(0.5, 4), r.range(0.5, 4), r.logRange(10, 1000), tpc});
        } else p.add("cap", {(double)i, r.chance(0.08) ? 0.0 : r.logRange(10, 1e5), r.chance(0.15) ? 300.0 : r.range(100, 450)});
    }
    auto pair = [&]() { double a = r.irange(0, n), b = r.irange(0, n); return std::make_pair(a, b); };
    const int links = r.irange(1, deep ? 14 : 9);
    for (int k = 0; k < links; ++k) {
        const double w = r.u(); auto ab = pair();
        if (w < 0.35) p.add("tlink", {TH_COND, ab.first, ab.second == n && r.chance(0.7) ? (double)r.irange(0, n - 1) : ab.second, r.logRange(1e-3, 1e3)});
        else if (w < 0.6) p.add("tlink", {TH_RAD, ab.first, ab.second, r.logRange(1e-10, 1e-7), r.chance(0.3) ? 1.0 : r.u()});
        else if (w < 0.7) p.add("tlink", {TH_POT, (double)n, (double)r.irange(0, n - 1), r.logRange(1e-2, 1e2), r.range(150, 400)});
        else if (!passive && w < 0.78) p.add("tlink", {TH_TED, (double)r.irange(0, n - 1), (double)r.irange(0, n - 1), r.chance(0.5) ? 0.0 : r.range(2, 100), r.range(-3, 3)});
        else if (!passive) {
            std::vector<double> v{(double)r.irange(TH_SRC, TH_MPAN), r.chance(0.2) ? 0.0 : r.logRange(1, 500), r.range(0.5, 1.5), r.logRange(0.1, 5), r.range(0.1, 1)};
            for (int i = r.irange(1, 3); i > 0; --i) { v.push_back(r.irange(0, n - 1)); v.push_back(r.range(0.1, 1)); }
            p.add("msrc", v);
        }
    }
    double dt = r.logRange(0.01, 100);
    const int steps = r.irange(4, deep ? 40 : 18);
    for (int s = 0; s < steps; ++s) {
        for (int d = r.irange(0, 2); d > 0; --d) {
            const double k = r.irange(0, 30);
            switch (r.irange(0, passive ? 6 : 13)) {
                case 0: p.add("block", {k, r.chance(0.7) ? 1.0 : 0.0, r.chance(0.3) ? 1.0 : r.u()}); break;
                case 1: p.add("g", {k, r.chance(0.1) ? 0.0 : r.logRange(1e-3, 1e3)}); break;
                case 2: p.add("view", {k, r.u()}); break;
                case 3: p.add("port", {k, (double)r.irange(0, 1), (double)r.irange(0, n)}); break;
                case 4: p.add("cap_edit", {k, r.logRange(10, 1e5)}); break;
                case 5: dt = r.chance(0.15) ? 0.0 : r.logRange(0.01, 100); break;
                case 6: if (r.chance(0.3)) p.add("restart"); break;
                case 7: p.add("ext", {k, (double)r.irange(0, 14), r.chance(0.3) ? 0.0 : r.range(-20, 200)}); break;
                case 8: p.add("demand", {k, r.logRange(0.1, 500), (double)r.irange(0, 4)}); break;
                case 9: p.add("fovr", {k, r.chance(0.6) ? 1.0 : 0.0, r.range(-50, 300)}); break;
                case 10: p.add("tovr", {k, r.chance(0.5) ? 1.0 : 0.0, r.range(200, 350)}); break;
                case 11: p.add("covr", {k, r.chance(0.5) ? 1.0 : 0.0, r.range(200, 350)}); break;
                case 12: p.add("ted", {k, r.range(-10, 10), r.chance(0.4) ? 1.0 : 0.0, r.range(0, 2)}); break;
                default: p.add("leak", {k, r.chance(0.7) ? 1.0 : 0.0, r.logRange(1e-5, 1)}); break;
            }
        }
        p.add("step", {dt, (double)r.irange(1, 3)});
    }
}
void genActive(Rng& r, Plan& p, bool deep)  { genT(r, p, deep, false); }
void genPassive(Rng& r, Plan& p, bool deep) { genT(r, p, deep, true); }

void oneStep(ThermNet& N, double dt, Ctx& ctx, bool passive, std::set<int>& moved, bool& first) {
    const int n = N.n;
    std::vector<double> T0(n + 1);
    for (int i = 0; i <= n; ++i) T0[i] = N.nodes[i].getPotential();
    struct Pcb { double mass, frac; };
    std::vector<Pcb> before(N.L.size());
    for (size_t k = 0; k < N.L.size(); ++k) if (N.L[k]->t == TH_PCB) { auto* b = static_cast<GunnsThermalPhaseChangeBattery*>(N.L[k]->l.get()); before[k] = Pcb{b->mMass, b->mHotPhaseFraction}; }
    for (auto& m : N.L) if (m->pend > 0) { m->g = m->pend; m->pend = 0; }
    N.net.step(dt);
    ctx.advance(dt);
    traceStep(N.net);
    std::vector<double> T(n + 1);
    bool wild = false;
    for (int i = 0; i <= n; ++i) { T[i] = N.nodes[i].getPotential(); ctx.check(finite(T[i]), fmt("thermal-finite: node %d temperature is not finite", i)); if (std::fabs(T[i]) > 1e5 || std::fabs(T0[i]) > 1e5) wild = true; ctx.logd("T", T[i]); }
    ctx.check(T[n] == 0.0, "ground: the space node does not stay at zero");
    if (wild) { first = false; moved.clear(); return; }

    // Overrides: any port with its override active holds its node.
    std::vector<int> ovn(n + 1, 0); std::vector<double> ovv(n + 1, 0);
    for (auto& m : N.L) {
        if (m->multi() && m->to) for (int q : m->ports) { ++ovn[q]; ovv[q] = m->tov; }
        if (m->t == TH_CAP && m->ov) { ++ovn[m->ports[0]]; ovv[m->ports[0]] = m->ovv; }
    }
    bool anyOv = false;
    for (int i = 0; i < n; ++i) if (ovn[i]) anyOv = true;
    for (int i = 0; i < n; ++i) if (ovn[i] == 1) ctx.check(near(T[i], ovv[i], 1e-9, 1e-6), fmt("override: node %d is at %.12g K while its temperature is overridden to %.12g", i, T[i], ovv[i]));

    // Two conflicting overrides on a node: whichever won is what a port override holds from now on.
    for (auto& m : N.L) if (m->t == TH_CAP && m->ov && ovn[m->ports[0]] > 1) m->ovv = T[m->ports[0]];
    std::vector<double> q(n + 1, 0.0), sc(n + 1, 1e-9); std::vector<bool> skip(n + 1, false), link(n + 1, false);
    double hi = -1e300, lo = 1e300; bool cold = false;
    for (int i = 0; i < n; ++i) { hi = std::max(hi, T0[i]); lo = std::min(lo, T0[i]); }
    for (size_t k = 0; k < N.L.size(); ++k) {
        ThLink& m = *N.L[k]; GunnsBasicLink* l = m.l.get();
        for (size_t i = 0; i < m.ports.size(); ++i) ctx.check(l->getNodeMap()[i] == m.ports[i], fmt("ports: thermal link %zu port %zu is on node %d, was commanded to node %d", k, i, l->getNodeMap()[i], m.ports[i]));
        const double blk = ThermNet::blockOf(l);
        if (m.t == TH_COND || m.t == TH_RAD || m.t == TH_TED) {
            const int a = m.ports[0], b = m.ports[1];
            double g = m.g, tol = 1e-9;
            if (m.t == TH_RAD) {
                const double d = T0[a] - T0[b];
                if (first || moved.count(static_cast<int>(k)) || ovn[a] || ovn[b]) { g = l->getAdmittanceMatrix()[0]; }
                else if (std::fabs(d) <= 1e-9) { g = l->getAdmittanceMatrix()[0]; ctx.probe("radiation_between_equal_temperatures"); }
                else {
                    g = m.view * m.g * (std::pow(T0[a], 4) - std::pow(T0[b], 4)) / d * blk;
                    if (g < 0) g = 0;
                    tol += 1e-15 * std::max(std::fabs(T0[a]), std::fabs(T0[b])) / std::fabs(d);
                }
            } else if (m.t == TH_TED) {
                const double h = std::min(std::max(T0[a], m.tmin), m.tmax), c = std::min(std::max(T0[b], m.tmin), m.tmax), d = h - c;
                g = m.K[0];
                if (std::fabs(d) > 1e-15) g += (h + c) * m.K[1] / 2 + (h * h + h * c + c * c) * m.K[2] / 3;
                const bool known = !(first || moved.count(static_cast<int>(k)) || ovn[a] || ovn[b] || (d != 0 && std::fabs(d) < 1e-6) || d == 0);
                g = known ? std::max(0.0, g * blk) : l->getAdmittanceMatrix()[0];
                const double R = std::max(m.R0 + m.R1 * 0.5 * (h + c), DBL_EPSILON), te = m.tef ? std::max(0.0, m.te) : 1.0;
                const double joule = m.cur * m.cur * R;
                double sh = joule / 2 - m.cur * h * te * (m.S[0] + m.S[1] * h + m.S[2] * h * h);
                double sk = joule / 2 + m.cur * c * te * (m.S[0] + m.S[1] * c + m.S[2] * c * c);
                if (!known) { sh = l->getSourceVector()[0]; sk = l->getSourceVector()[1]; }
                else {
                    ctx.check(near(l->getSourceVector()[0], sh, 1e-9, 1e-9) && near(l->getSourceVector()[1], sk, 1e-9, 1e-9),
                              fmt("thermoelectric: device %zu adds %.12g W hot and %.12g W cold at %.6g A, its law gives %.12g and %.12g", k, l->getSourceVector()[0], l->getSourceVector()[1], m.cur, sh, sk));
                    if (m.cur != 0) ctx.probe("thermoelectric_driven");
                }
                q[a] += sh; q[b] += sk; sc[a] += std::fabs(sh); sc[b] += std::fabs(sk); tol = 1e-7;
            }
            if (m.t == TH_COND) g = std::max(0.0, g * blk);
            const double f = g * (T[a] - T[b]), s = g * (std::fabs(T[a]) + std::fabs(T[b]));
            ctx.check(std::fabs(l->getFlux() - f) <= tol * s + 1e-9, fmt("heat-law: thermal link %zu (type %d) carries %.12g W from %.9g K to %.9g K, its law gives %.12g", k, m.t, l->getFlux(), T[a], T[b], f));
            if (m.t != TH_TED || l->getAdmittanceMatrix()[0] >= 0) ctx.check(l->getFlux() * (T[a] - T[b]) >= -1e-9, fmt("second-law: thermal link %zu carries heat from the colder to the hotter node", k));
            q[a] -= l->getFlux(); q[b] += l->getFlux(); sc[a] += s; sc[b] += s;
            if (g > 0) { link[a] = link[b] = true; if (a == n || b == n) cold = true; }
        } else if (m.t == TH_POT) {
            const int b = m.ports[1]; const double g = std::max(0.0, m.g * blk), f = g * (m.s - T[b]);
            ctx.check(near(l->getFlux(), f, 1e-9, 1e-9 * g * std::fabs(m.s) + 1e-9), fmt("heat-law: boundary %zu at %.9g K gives node at %.9g K %.12g W, its law gives %.12g", k, m.s, T[b], l->getFlux(), f));
            q[b] += l->getFlux(); sc[b] += g * (std::fabs(m.s) + std::fabs(T[b])); if (g > 0) { link[b] = true; hi = std::max(hi, m.s); lo = std::min(lo, m.s); }
        } else if (m.multi()) {
            double d = m.demand;
            if (m.t == TH_PAN) d = m.absorp * m.area * m.inc[0];
            if (m.t == TH_MPAN) { d = 0; for (int i = 0; i < 5; ++i) d += m.ab[i] * m.vs[i] * m.inc[i]; d *= m.area; }
            double f = m.fo ? m.fov : m.tune * d * blk;
            ctx.check(near(l->getFlux(), f, 1e-9, 1e-9), fmt("heat-law: source %zu (type %d) delivers %.12g W, its commands give %.12g", k, m.t, l->getFlux(), f));
            for (size_t i = 0; i < m.ports.size(); ++i) { q[m.ports[i]] += f * m.fr[i]; sc[m.ports[i]] += std::fabs(f); }
        }
    }
    for (size_t k = 0; k < N.L.size(); ++k) {
        ThLink& m = *N.L[k]; GunnsBasicLink* l = m.l.get();
        if (m.t != TH_CAP && m.t != TH_PCB) continue;
        const int a = m.ports[0];
        // An override replaces the solved value afterwards: neighbouring balances are not judged in that step.
        if (anyOv) { if (m.ov) m.fresh = false; ctx.probe("temperature_override_step"); continue; }
        if (m.t == TH_CAP && m.fresh) { m.fresh = false; continue; }
        const double ext = m.extSum();
        if (m.t == TH_CAP) {
            if (dt < DBL_EPSILON) { if (m.g > 1) ctx.check(near(T[a], T0[a], 1e-7, 1e-6), fmt("frozen: node %d moved from %.12g to %.12g K in a zero time step", a, T0[a], T[a])); continue; }
            const double rise = m.g * (T[a] - T0[a]), in = (q[a] + (m.g > DBL_EPSILON ? ext : 0)) * dt;
            const double s = sc[a] * dt + m.g * (std::fabs(T[a]) + std::fabs(T0[a])) + std::fabs(ext) * dt;
            if (m.g < 1e-6 && !link[a]) continue;
            ctx.check(std::fabs(rise - in) <= 1e-9 * s + 1e-7, fmt("energy: node %d stored %.12g J but received %.12g J in the step", a, rise, in));
            ctx.check(static_cast<GunnsThermalCapacitor*>(l)->mTemperature == T[a], fmt("temperature: capacitor of node %d reports %.12g K, node is at %.12g", a, static_cast<GunnsThermalCapacitor*>(l)->mTemperature, T[a]));
        } else {
            auto* b = static_cast<GunnsThermalPhaseChangeBattery*>(l);
            const double f0 = before[k].frac, m0 = before[k].mass, f1 = b->mHotPhaseFraction, m1 = b->mMass;
            ctx.check(f1 >= 0 && f1 <= 1, fmt("phase-fraction: battery at node %d has hot fraction %.12g", a, f1));
            const double leak = m.leakOn && dt > 0 ? m.leak * dt : 0;
            ctx.check(m1 <= m0 + 1e-12 && m0 - m1 <= leak * (1 + 1e-9) + 1e-12, fmt("battery-mass: went from %.12g to %.12g kg with a leak of %.12g kg", m0, m1, leak));
            ctx.check(near(m0 - m1, b->mActualLeakRate * dt, 1e-9, 1e-12 + 1e-13 * m0), fmt("battery-mass: lost %.12g kg, reported leak %.12g kg", m0 - m1, b->mActualLeakRate * dt));
            if (f0 > 0 && f0 < 1) {
                ctx.probe("battery_mixed_phase");
                ctx.check(std::fabs(T[a] - m.tpc) <= 1e-9 * m.tpc + (std::fabs(q[a]) + std::fabs(ext)) * 1.01e-6 + 1e-6, fmt("phase-change: mixed-phase battery at node %d is at %.12g K, phase-change temperature is %.12g (heat %.9g W)", a, T[a], m.tpc, q[a]));
                const double E = (q[a] + ext) * dt, dmax = E / 1000 / m.heat / m0;
                double want = f0 + dmax; want = leak == 0 ? std::min(std::max(want, 0.0), 1.0) : want;
                const double s = (sc[a] + std::fabs(ext) + 1e6 * m.tpc * 1e-15 * 1e3) * dt / 1000 / m.heat / m0;
                if (leak == 0) ctx.check(std::fabs(f1 - want) <= 1e-6 * s + 1e-9 + 1e-9 * std::fabs(dmax), fmt("latent-heat: %.9g J moved the hot fraction from %.12g to %.12g, expected %.12g", E, f0, f1, want));
                else if (want >= 0 && want < 1) {
                    // The leak takes hot mass only: the cold mass changes by the phase change alone.
                    const double cold0 = m0 * (1 - f0) - dmax * m0, cold1 = m1 * (1 - f1);
                    ctx.check(near(cold0, cold1, 1e-6, 1e-6 * s * m0 + 1e-9 * m0 + 1e-9), fmt("battery-leak: cold mass should be %.12g kg, is %.12g", cold0, cold1));
                    ctx.probe("battery_leaked");
                }
            } else if (dt >= DBL_EPSILON) {
                const double C = m.cs + m0 * (f0 > 0 ? m.ch : m.cc) * 1000, rise = C * (T[a] - T0[a]), in = (q[a] + ext) * dt;
                ctx.check(std::fabs(rise - in) <= 1e-9 * (sc[a] * dt + C * (std::fabs(T[a]) + std::fabs(T0[a])) + std::fabs(ext) * dt) + 1e-7, fmt("energy: single-phase battery at node %d stored %.12g J but received %.12g J", a, rise, in));
                const bool crossed = f0 == 0 ? T[a] > m.tpc : T[a] < m.tpc;
                if (leak == 0) ctx.check(crossed ? f1 != f0 : f1 == f0, fmt("phase-change: battery at node %d at %.12g K (phase change at %.12g) went from hot fraction %.12g to %.12g", a, T[a], m.tpc, f0, f1));
                if (crossed) ctx.probe("battery_entered_mixed_phase");
            }
            ctx.check(static_cast<GunnsThermalPhaseChangeBattery*>(l)->getTemperature() == T[a], fmt("temperature: battery of node %d reports another temperature than its node", a));
        }
    }
    if (passive) {
        if (cold) lo = std::min(lo, 0.0);
        const double e = 1e-8 * std::max(std::fabs(hi), std::fabs(lo)) + 1e-7;
        for (int i = 0; i < n; ++i) if (link[i] || N.hasCap(i)) {
            bool zero = false; for (auto& m : N.L) if (m->t == TH_CAP && m->ports[0] == i && m->g < 1e-6) zero = true;
            if (zero && !link[i]) continue;
            if (zero) continue;
            ctx.check(T[i] <= hi + e && T[i] >= lo - e, fmt("hull: node %d went to %.12g K outside the range %.12g..%.12g of everything it can exchange heat with", i, T[i], lo, hi));
        }
    }
    std::string st; for (auto& m : N.L) st += m->l->getFlux() > 1e-9 ? '+' : m->l->getFlux() < -1e-9 ? '-' : '0';
    ctx.state(st + std::to_string(n));
    first = false; moved.clear();
}

void run(const Plan& p, Ctx& ctx) {
    HsTap tap;
    ThermNet N; N.build(p);
    std::set<int> moved; bool first = true; const bool passive = p.get("passive") != 0;
    for (auto& o : p.ops) {
        if (o.kind == "step") { for (int i = std::max(1, std::min(5, o.i(1, 1))); i > 0; --i) oneStep(N, std::max(0.0, o.d(0, 1)), ctx, passive, moved, first); continue; }
        if (o.kind == "restart") {
            N.net.restart(); ctx.fault("restart");
            for (size_t k = 0; k < N.L.size(); ++k) { auto& m = *N.L[k]; m.pend = 0; if (m.ports != m.defPorts) moved.insert(static_cast<int>(k)); m.ports = m.defPorts; if (m.t == TH_CAP || m.t == TH_PCB) for (double& e : m.ext) e = 0; m.ov = m.l->getOverrideVector()[0] && m.t == TH_CAP; }
            continue;
        }
        if (N.L.empty() || o.kind == "cap" || o.kind == "pcb" || o.kind == "tlink" || o.kind == "msrc") continue;
        // Pick the k-th link the operation applies to.
        std::vector<size_t> fit;
        auto fits = [&](const ThLink& m) {
            if (o.kind == "block") return m.t != TH_CAP && m.t != TH_PCB;
            if (o.kind == "g") return m.t == TH_COND || m.t == TH_POT;
            if (o.kind == "view") return m.t == TH_RAD;
            if (o.kind == "port") return m.t == TH_COND || m.t == TH_RAD;
            if (o.kind == "cap_edit" || o.kind == "covr") return m.t == TH_CAP;
            if (o.kind == "ext") return m.t == TH_CAP || m.t == TH_PCB;
            if (o.kind == "demand" || o.kind == "fovr" || o.kind == "tovr") return m.multi();
            if (o.kind == "ted") return m.t == TH_TED;
            if (o.kind == "leak") return m.t == TH_PCB;
            return false;
        };
        for (size_t k = 0; k < N.L.size(); ++k) if (fits(*N.L[k])) fit.push_back(k);
        if (fit.empty()) continue;
        const size_t k = fit[static_cast<size_t>(std::max(0, o.i(0))) % fit.size()];
        ThLink& m = *N.L[k]; GunnsBasicLink* l = m.l.get();
        if (o.kind == "block") { l->setMalfBlockage(o.b(1), std::min(1.0, std::max(0.0, o.d(2)))); ctx.fault("blockage"); }
        else if (o.kind == "g") { m.g = std::max(0.0, o.d(1)); static_cast<GunnsBasicConductor*>(l)->setDefaultConductivity(m.g); ctx.fault("conductivity_step"); }
        else if (o.kind == "view") { m.view = std::min(1.0, std::max(0.0, o.d(1))); static_cast<GunnsThermalRadiation*>(l)->setViewScalar(m.view); ctx.fault("view_step"); }
        else if (o.kind == "port") { const int pt = o.i(1) & 1, to = N.nd(o.d(2)); if (l->setPort(pt, to, "sim", false)) { m.ports[pt] = to; moved.insert(static_cast<int>(k)); ctx.fault("port_move"); } }
        else if (o.kind == "cap_edit") { if (m.g > 0) { m.pend = std::max(1.0, o.d(1)); static_cast<GunnsThermalCapacitor*>(l)->editCapacitance(true, m.pend); ctx.fault("capacitance_edit"); } }
        else if (o.kind == "covr") { m.ov = o.b(1); m.ovv = std::max(1.0, o.d(2)); m.fresh = true; /* a port override writes the link's own previous temperature at once */ if (m.ov) l->setPortOverride(0, m.ovv); else l->resetPortOverride(0); ctx.fault("temperature_override"); }
        else if (o.kind == "ext") { const int i = std::min(14, std::max(0, o.i(1))); m.ext[i] = o.d(2); if (m.t == TH_CAP) static_cast<GunnsThermalCapacitor*>(l)->setExternalHeatFlux(i, o.d(2)); else static_cast<GunnsThermalPhaseChangeBattery*>(l)->mExternalHeatFlux[i] = o.d(2); ctx.fault("external_heat"); }
        else if (o.kind == "demand") {
            m.demand = std::max(0.0, o.d(1)); const int i = std::min(4, std::max(0, o.i(2)));
            if (m.t == TH_SRC) static_cast<GunnsThermalSource*>(l)->mDemandedFlux = m.demand;
            else if (m.t == TH_HTR) static_cast<GunnsThermalHeater*>(l)->setPowerElectrical(m.demand);
            else if (m.t == TH_PAN) { m.inc[0] = m.demand; static_cast<GunnsThermalPanel*>(l)->mIncidentHeatFluxPerArea = m.demand; }
            else { m.inc[i] = m.demand; static_cast<GunnsThermalMultiPanel*>(l)->mIncidentFlux[i] = m.demand; }
            ctx.fault("demand_step");
        }
        else if (o.kind == "fovr") { m.fo = o.b(1); m.fov = o.d(2); static_cast<GunnsThermalSource*>(l)->setMalfFluxOverride(m.fo, m.fov); ctx.fault("flux_override"); }
        else if (o.kind == "tovr") { m.to = o.b(1); m.tov = std::max(1.0, o.d(2)); static_cast<GunnsThermalSource*>(l)->mTemperatureOverrideFlag = m.to; static_cast<GunnsThermalSource*>(l)->mTemperatureOverrideValue = m.tov; ctx.fault("temperature_override"); }
        else if (o.kind == "ted") { m.cur = o.d(1); m.tef = o.b(2); m.te = o.d(3); auto* e = static_cast<GunnsThermoelectricDevice*>(l); e->mThermoelectricEffect.setCurrent(m.cur); e->mThermoelectricEffect.mMalfThermoelectricEffectsFlag = m.tef; e->mThermoelectricEffect.mMalfThermoelectricEffectsScalar = m.te; ctx.fault("thermoelectric_drive"); }
        else if (o.kind == "leak") { m.leakOn = o.b(1); m.leak = std::max(0.0, o.d(2)); static_cast<GunnsThermalPhaseChangeBattery*>(l)->setMalfHotPhaseLeak(m.leakOn, m.leak); ctx.fault("battery_leak"); }
    }
    if (p.ops.size() > 3) ctx.probe("thermal_history");
}

Register t01({"T01", "distinct = a different network, initial state or disturbance schedule; trivial = no heat flow anywhere", "direction of heat flow in every link",
    {{"active", 2, genActive, run}, {"passive", 1, genPassive, run}}, 40000, 2000000,
    {"all thermal links (capacitor, conductor, radiation, boundary potential, source, heater, panel, multi-panel, thermoelectric device, phase-change battery), Gunns solver and basic nodes (real code)"},
    {"Trick scheduling and the simulation bus (stub: the plan writes the bus variables)"},
    {"steps in which a radiation link sees equal temperatures, a first step or a just-moved port are not judged on that link's conductivity"}});
} // namespace
void thermalRun(const Plan& p, Ctx& c) { run(p, c); }
void thermalGen(Rng& r, Plan& p, bool deep) { genActive(r, p, deep); }
} // namespace dst
