// D02: two real fluid networks joined by GunnsFluidDistributedIf over a faulty data network.
#include "wire.hh"
#include "busmsg.hh"
#include "fluidnet.hh"
#include "core/GunnsFluidDistributedIf.hh"

namespace dst {
namespace {

/// The real link, reporting when the solver has it process its inputs and outputs.
struct IfLink : public GunnsFluidDistributedIf {
    std::function<void()> afterIn;
    virtual void processInputs() { GunnsFluidDistributedIf::processInputs(); if (afterIn) afterIn(); }
};
struct NetSide {
    FluidNet f; IfLink link; FluidMsg in; bool got; long stallUntil; int force; std::unique_ptr<PolyFluid> ref; unsigned frames; double v0, cSent; int sinceFlip; int stepRole = -1;
    NetSide() : got(false), stallUntil(-1), force(0), frames(0), v0(1), cSent(0), sinceFlip(0) {}
    void applyForce() { if (force == 1) link.mInterface.forceSupplyRole(); else if (force == 2) link.mInterface.forceDemandRole(); else link.mInterface.resetForceRole(); }
};

void genD02(Rng& r, Plan& p, bool deep, bool clean) {
    const int frames = r.irange(40, deep ? 400 : 150);
    p.set("frames", frames); p.set("master", r.irange(0, 1)); p.set("enthalpy", r.irange(0, 1)); p.set("option", r.chance(0.25)); p.set("clean", clean);
    p.set("extra", r.chance(0.2) ? r.irange(1, 3) : 0);
    Plan a, b; FluidGen g; g.expansion = 0; g.zeroVol = false; g.kindsMask = (1 << FluidNet::COND) | (1 << FluidNet::VALVE) | (1 << FluidNet::SENSOR) | (1 << FluidNet::FAN);
    genFluid(r, a, g, deep); genFluid(r, b, g, deep);
    for (auto& kv : a.cfg) p.set(kv.first, kv.second);
    const double V = r.logRange(0.05, 2);
    for (int s = 0; s < 2; ++s) { bool first = true; for (auto& o : (s ? b : a).ops) { std::vector<double> v(1, s); v.insert(v.end(), o.a.begin(), o.a.end()); if (o.kind == "node" && first) { v[1] = V; first = false; } if (o.kind == "node") v[3] = r.range(60, 150); p.add(o.kind == "node" ? "snode" : "sflink", v); } }
    if (clean) for (int d = 0; d < 2; ++d) p.add("latency", {(double)d, 0, (double)r.irange(0, 8)}); else genWire(r, p, frames, 12, true);
    const int k = r.irange(0, 8);
    for (int i = 0; i < k; ++i) {
        const double s = r.irange(0, 1), at = r.irange(1, frames), u = r.u();
        if (u < 0.5) p.add("sev", {s, at, (double)r.irange(0, 20), r.chance(0.35) ? 0.0 : 1.0, r.range(-0.3, 1)});
        else if (u < 0.6) p.add("ifblock", {s, at, r.chance(0.4) ? 0.0 : r.u()});
        else if (clean) continue;
        else if (u < 0.75) p.add("stall", {s, at, (double)r.irange(1, 30)});
        else if (u < 0.9) p.add("force", {s, at, (double)r.irange(1, 2), (double)r.irange(5, 60)});
        else p.add("volume", {s, at, V});
    }
}
void genFaulty(Rng& r, Plan& p, bool d) { genD02(r, p, d, false); }
void genClean(Rng& r, Plan& p, bool d) { genD02(r, p, d, true); }

void runD02(const Plan& p, Ctx& ctx) {
    HsTap hs; NetSide side[2]; Wire<FluidMsg> wire[2]; const bool enth = p.get("enthalpy") != 0; const int extra = std::max(0, p.geti("extra"));
    for (int s = 0; s < 2; ++s) {
        NetSide& a = side[s]; Plan q; q.cfg = p.cfg; q.set("liquid", 0);
        for (auto& o : p.ops) if ((o.kind == "snode" || o.kind == "sflink") && std::abs(o.i(0)) % 2 == s) q.add(o.kind == "snode" ? "node" : "flink", std::vector<double>(o.a.begin() + 1, o.a.end()));
        bool first = true; for (auto& o : q.ops) if (o.kind == "node" && first) { first = false; if (o.a.empty()) o.a.resize(12, 1.0); if (!(o.a[0] > 0)) o.a[0] = 1; }
        a.f.extra = [&](FluidNet& f) {
            GunnsFluidDistributedIfConfigData c("if", &f.list, p.geti("master") == s, enth, p.get("option") != 0, f.caps[0]);
            if (extra) c.overrideInterfaceMixtureSizes(f.nx + extra, f.nt + extra);
            a.link.initialize(c, GunnsFluidDistributedIfInputData(false, 0, false, false), f.links, 0);
        };
        a.f.build(q); a.v0 = a.f.nodes[0].getVolume(); a.ref.reset(new PolyFluid(a.f.nodes[0].mContent, "ref", true)); wire[s].rng = Rng(p.seed * 2 + s + 1);
    }
    const int nx = side[0].f.nx, nt = side[0].f.nt; const double dt = side[0].f.dt;
    const long frames = std::min(2000, p.geti("frames", 60)), total = frames + 1000; long forceUntil = -1, lastOpposite = -1;
    const bool clean = p.get("clean") != 0; bool broken = false; long baseAt = -1; double base = 0, baseTol = 0, baseFlow = 0; int baseRole = -1;
    std::deque<double> pipe; double quietLo = 0, quietHi = 0, swing = 0, lastP[2] = {0, 0};
    for (long t = 0; t < total && !broken; ++t) {
        if (t < frames) for (auto& o : p.ops) {
            if (wireOp(o, t, wire) || o.i(1) != t) continue;
            NetSide& a = side[std::abs(o.i(0)) % 2];
            if (o.kind == "sev") { Op e("ev", {1.0, o.d(2), o.d(3), o.d(4)}); if (std::abs(e.i(2)) % 5 < 4) a.f.event(e, 1, ctx); }
            else if (o.kind == "ifblock") { a.link.mMalfBlockageFlag = o.d(2) > 0; a.link.mMalfBlockageValue = std::min(1.0, std::max(0.0, o.d(2))); ctx.fault("interface_blockage"); }
            else if (o.kind == "stall") { a.stallUntil = t + o.i(2); ctx.fault("node_stall"); }
            else if (o.kind == "force") { a.force = o.i(2) == 1 ? 1 : 2; NetSide& b = side[&a == side]; b.force = 3 - a.force; a.applyForce(); b.applyForce(); forceUntil = t + o.i(3); ctx.fault("forced_role"); }
        } else if (t == frames) {
            for (int s = 0; s < 2; ++s) { wireQuiet(wire[s]); side[s].stallUntil = -1; side[s].force = 0; side[s].applyForce(); side[s].link.mMalfBlockageFlag = false; }
        }
        if (forceUntil == t && t < frames) for (int s = 0; s < 2; ++s) { side[s].force = 0; side[s].applyForce(); }
        double appliedNow = 0, sentNow = 0; bool both = true;
        for (int q = 0; q < 2; ++q) {
            const int s = clean ? q : (t % 2) ? 1 - q : q; NetSide& a = side[s]; FluidNet& f = a.f; IfLink& L = a.link; GunnsFluidNode& nd = f.nodes[0]; FluidMsg m;
            if (wire[1 - s].receive(t, m, ctx)) { a.in = m; a.got = true; }
            if (t < a.stallUntil) { both = false; continue; }
            if (a.got) a.in.to(L.mInData);
            ++a.frames; ++a.sinceFlip;
            const bool role0 = L.mInterface.isInDemandRole();
            bool role1 = role0; const bool valid = a.got && a.in.valid();
            // reference fluid of the message
            double bulk = 0; std::vector<double> x(nx), w(nx); double mw = 0;
            if (valid) { for (int k = 0; k < nx; ++k) bulk += x[k] = k < (int)a.in.x.size() ? a.in.x[k] : 0.0; for (int k = 0; k < nx; ++k) { x[k] /= bulk; mw += x[k] * f.props->getProperties(f.cfg->mTypes[k])->getMWeight(); } for (int k = 0; k < nx; ++k) w[k] = x[k] * f.props->getProperties(f.cfg->mTypes[k])->getMWeight() / mw; a.ref->setMassAndMassFractions(0.0, w.data()); a.ref->setPressure(100); a.ref->setTemperature(enth ? a.ref->computeTemperature(a.in.energy) : a.in.energy); }
            double flux = 0;
            // once the link has read its message
            L.afterIn = [&]() {
            role1 = L.mInterface.isInDemandRole();
            ctx.check(!a.force || role1 == (a.force == 2), "force: the interface is not in its forced role");
            if (role1 != role0) { a.sinceFlip = 0; ctx.probe("role_change"); }
            if (role1) {
                if (valid && !a.in.demand) {
                    const PolyFluid& c = nd.mContent;
                    ctx.check(near(c.getTemperature(), a.ref->getTemperature(), 1e-10, 0) && near(c.getPressure(), a.in.source / 1000, 1e-12, 0), fmt("supply state: the demand side holds its node at %.9g kPa %.9g K, the supply side sent %.9g kPa %.9g K", c.getPressure(), c.getTemperature(), a.in.source / 1000, a.ref->getTemperature()));
                    for (int k = 0; k < nx; ++k) ctx.check(near(c.getMoleFraction(k), x[k], 1e-9, 1e-12), fmt("supply state: mole fraction %d is %.9g in the demand node, %.9g was sent", k, c.getMoleFraction(k), x[k]));
                    for (int k = 0; k < nt; ++k) ctx.check(near(c.mTraceCompounds->getMoleFractions()[k], a.in.tc[k] / bulk, 1e-9, 1e-14), fmt("supply state: trace compound %d is %.9g in the demand node, %.9g was sent", k, c.mTraceCompounds->getMoleFractions()[k], a.in.tc[k] / bulk));
                    ctx.probe("supplied");
                }
                ctx.check(L.mDemandFlux == 0, "roles: a demand side applies a demanded flow");
            } else {
                if (valid && a.in.demand) { flux = -a.in.source / 1000 * bulk; ctx.probe("demanded"); }
                ctx.check(L.mSourcePressure == 0, "roles: a supply side applies a supplied pressure");
            }
            };
            // the local network
            std::vector<double> m0(f.n), h0(f.n), mol0(f.n); std::vector<std::vector<double> > s0(f.n, std::vector<double>(nx)), c0(f.n, std::vector<double>(nt));
            for (int i = 0; i < f.n; ++i) { m0[i] = f.mass(i); h0[i] = f.enthalpy(i); mol0[i] = f.nodes[i].mContent.getMole(); for (int k = 0; k < nx; ++k) s0[i][k] = f.species(i, k); for (int k = 0; k < nt; ++k) c0[i][k] = f.tcMass(i, k); }
            hs.msgs.clear(); f.snapshot(); const double T0 = nd.mContent.getTemperature(); const int fails = f.net.getConvergenceFailCount(); f.net.step(dt); L.afterIn = nullptr;
            if (f.net.getConvergenceFailCount() != fails) { ctx.probe("not_converged"); FluidMsg out; out.from(L.mOutData); wire[s].send(t, out, ctx); baseAt = -1; a.stepRole = -1; continue; }
            if (ctx.verbose) for (auto& h : hs.msgs) fprintf(stderr, "  frame %ld side %d hs: %s\n", t, s, h.text.c_str());
            bool flipped = a.stepRole != role1 || role0 != role1; a.stepRole = role1;   // the node's volume is taken away or given back in this step
            bool over = flipped || L.mInterface.isInDemandRole() != role1 || hs.countText("conservation errors") > 0 || hs.count(TS_HS_ERROR) > 0; double pMax = 0;
            for (int i = 0; i < f.n; ++i) {
                GunnsFluidNode& k = f.nodes[i]; pMax = std::max(pMax, std::fabs(k.getPotential())); const double mwi = k.mInflow.getMWeight(), inMol = mwi > DBL_EPSILON ? std::max(0.0, k.mInfluxRate) * dt / mwi : 0;
                if (k.getPotential() <= 0 || (k.getVolume() > 0 && (k.mScheduledOutflux * dt > (mol0[i] + inMol) * (1 - 1e-9) || f.mass(i) < 1e-9))) over = true;
            }
            if (!finite(pMax) || pMax > 1e5 || hs.countText("zero node mass")) { ctx.probe("runaway_pressure"); broken = true; break; }
            ctx.check(near(nd.getVolume(), role1 ? 0.0 : a.v0, 1e-12, 0), fmt("volume: the interface node has %.9g m3 in %s role, its tank has %.9g m3", nd.getVolume(), role1 ? "demand" : "supply", a.v0));
            if (!role1) ctx.check(near(L.mFlux, flux, 1e-12, 1e-18), fmt("demand: the supply side applies %.12g kmol/s, the demand received is %.12g kmol/s", L.mFlux, flux));
            // ledger of the interface node
            double dm = 0, dh = 0, scale = 0, net = 0; std::vector<double> ds(nx, 0), dc(nt, 0);
            for (auto& l : f.fl) for (int port = 0; port < 2; ++port) if (l.l->mNodeMap[port] == 0 && l.l->mFlowRate != 0) {
                const double into = port == 0 ? -l.l->mFlowRate : l.l->mFlowRate; const PolyFluid* c = f.moved(l); const double h = into > 0 ? c->getSpecificEnthalpy() : nd.mOutflow.getSpecificEnthalpy();
                dm += into; dh += into * h; scale += std::fabs(into); net += into / c->getMWeight(); for (int k = 0; k < nx; ++k) ds[k] += into * c->getMassFraction(k); for (int k = 0; k < nt; ++k) dc[k] += into / c->getMWeight() * c->mTraceCompounds->getMoleFractions()[k] * f.tcMw(k);
            }
            if (over) { ctx.probe("overdrawn_step"); baseAt = -1; }
            if (!role1 && !over) {
                const double wf = flux * mw; bool positive = true; const double netIn = nd.mInfluxRate, S0 = m0[0] + scale * dt;
                if (std::fabs(wf) > 3e-14) { dm += wf; scale += std::fabs(wf); dh += wf * a.ref->getSpecificEnthalpy(); for (int k = 0; k < nx; ++k) ds[k] += wf * w[k]; for (int k = 0; k < nt; ++k) dc[k] += flux * a.in.tc[k] / bulk * f.tcMw(k); }
                for (int k = 0; k < nx; ++k) positive &= s0[0][k] + ds[k] * dt > -1e-12 * m0[0];
                for (int k = 0; k < nt; ++k) positive &= c0[0][k] + dc[k] * dt > 1e-15 * S0 || dc[k] >= 0;
                const bool mixed = std::fabs(netIn) < 1e-3 * scale;        // inflows and removals that cancel out leave no mixture to integrate
                const double S = m0[0] + scale * dt, slack = 1e-12 * dt;
                ctx.check(near(nd.mContent.getMass() - m0[0], dm * dt, 0, 1e-11 * S + slack), fmt("ledger: the supply node gained %.12g kg, its links and the demanded flow deliver %.12g kg", f.mass(0) - m0[0], dm * dt));
                if (positive && !mixed) {
                    for (int k = 0; k < nx; ++k) ctx.check(near(f.species(0, k) - s0[0][k], ds[k] * dt, 0, 1e-9 * S + slack), fmt("ledger: the supply node gained %.12g kg of species %d, its links and the demanded flow deliver %.12g kg", f.species(0, k) - s0[0][k], k, ds[k] * dt));
                    for (int k = 0; k < nt; ++k) ctx.check(near(f.tcMass(0, k) - c0[0][k], dc[k] * dt, 0, 1e-9 * (c0[0][k] + std::fabs(dc[k] * dt)) + 1e-12 * S), fmt("ledger: the supply node gained %.12g kg of trace compound %d, its links and the demanded flow deliver %.12g kg", f.tcMass(0, k) - c0[0][k], k, dc[k] * dt));
                    if (h0[0] + dh * dt > 0 && T0 > 150 && T0 < 600 && nd.mContent.getTemperature() > 150 && nd.mContent.getTemperature() < 600) ctx.check(near(f.enthalpy(0) - h0[0], dh * dt, 0, 1e-7 * (std::fabs(h0[0]) + scale * dt * std::fabs(a.ref->getSpecificEnthalpy())) + slack * 1e6), fmt("ledger: the supply node gained %.9g J, its links and the demanded flow deliver %.9g J", f.enthalpy(0) - h0[0], dh * dt));
                }
                appliedNow += wf;
            } else if (role1 && !over) {
                double admit = L.mAdmittanceMatrix[0]; for (auto& l : f.fl) if (l.l->mNodeMap[0] == 0 || l.l->mNodeMap[1] == 0) admit += std::fabs(l.l->mAdmittanceMatrix[0]);
                ctx.check(near(net + L.mFlux, 0, 0, 1e-9 * (std::fabs(L.mFlux) + scale) + 1e-12 * admit * pMax + 1e-13), fmt("balance: the demand node receives %.12g kmol/s from its network and %.12g kmol/s from the interface", net, L.mFlux));
            }
            const double P = nd.getPotential(), q1 = L.mFlux; const bool useIn = nd.mInflow.getTemperature() > 0 && !L.checkNegativeFluidFractions(&nd.mInflow); PolyFluid* of = role1 && useIn ? &nd.mInflow : &nd.mContent;
            const bool role2 = L.mInterface.isInDemandRole();
            if (role2 != role1) { a.sinceFlip = 0; ctx.probe("role_change"); }
            // what is sent must describe the node
            FluidMsg out; out.from(L.mOutData);
            double tcs = 1; for (int k = 0; k < nt; ++k) tcs += of->mTraceCompounds->getMoleFractions()[k];
            const bool noise = role1 != role2 || of == &nd.mInflow && std::fabs(nd.mInfluxRate) < 1e-12;      // PolyFluid does not resolve the mixture of flows near machine precision
            for (int k = 0; k < nx && !noise; ++k) ctx.check(near(out.x[k] * tcs, of->getMoleFraction(k), 1e-9, 1e-12), fmt("output: mole fraction %d sent as %.9g of the total, the fluid has %.9g of the bulk", k, out.x[k], of->getMoleFraction(k)));
            for (int k = nx; k < (int)out.x.size(); ++k) ctx.check(out.x[k] == 0, "output: an unused mole fraction is not zero");
            for (int k = 0; k < nt && !noise; ++k) ctx.check(near(out.tc[k] * tcs, of->mTraceCompounds->getMoleFractions()[k], 1e-9, 1e-14), "output: wrong trace compound fraction sent");
            if (role1 == role2) ctx.check(near(out.energy, enth ? of->getSpecificEnthalpy() : of->getTemperature(), 1e-12, 0), fmt("output: energy sent as %.9g, the fluid has %.9g", out.energy, enth ? of->getSpecificEnthalpy() : of->getTemperature()));
            ctx.check(near(out.source, role1 ? q1 * 1000 * tcs : role2 ? 0.0 : P * 1000, 1e-12, 0), fmt("output: %s side sends %.9g, its node is at %.9g kPa with %.9g kmol/s", role1 ? "demand" : "supply", out.source, P, q1));
            ctx.check(out.demand == role2 && out.cap >= 0 && finite(out.cap) && finite(out.source), "output: wrong role or capacitance sent");
            sentNow += role1 ? -q1 * of->getMWeight() : 0;
            a.cSent = out.cap; wire[s].send(t, out, ctx);
        }
        if (broken) break;
        ctx.advance(dt);
        const bool d0 = side[0].link.mInterface.isInDemandRole(), d1 = side[1].link.mInterface.isInDemandRole();
        if (d0 != d1) lastOpposite = t;
        // end to end: what one side gives up the other receives, latency later
        if (clean && d0 != d1 && side[0].sinceFlip > 40 && side[1].sinceFlip > 40) {
            if (baseAt < 0 || baseRole != d0) { baseAt = t; baseRole = d0; base = baseTol = baseFlow = 0; pipe.clear(); }
            else { pipe.push_back(sentNow); base += sentNow; baseTol += std::fabs(sentNow) + std::fabs(appliedNow); baseFlow += appliedNow; }
            const int lat = std::max<int>(wire[d0 ? 0 : 1].latency, d0 ? 0 : 1);
            if (t - baseAt > lat + 5 && t - baseAt > 0) {
                const long k = (long)pipe.size() - 1 - lat; if (k >= 0) ctx.check(near(appliedNow, pipe[k], 1e-7, 1e-12), fmt("end to end: the supply side applies %.12g kg/s in frame %ld, the demand side sent %.12g kg/s %d frames before", appliedNow, t, pipe[k], lat));
                ctx.probe("end_to_end");
            }
        } else { baseAt = -1; if (!both) pipe.clear(); }
        if (t % 7 == 0) ctx.log(fmt("%ld %d%d %.9g %.9g", t, d0, d1, side[0].f.nodes[0].getPotential(), side[1].f.nodes[0].getPotential()));
        ctx.state(Ctx::hashStr(fmt("%d%d/%d%d/%d%d/%d%d", d0, d1, side[0].in.demand, side[1].in.demand, side[0].link.mFlux > 1e-12, side[0].link.mFlux < -1e-12, side[0].force, (int)std::min(3u, side[0].frames))));
        if (t == frames) { quietLo = 1e30; for (int q = 0; q < 2; ++q) for (int i = 0; i < side[q].f.n; ++i) { const double P = side[q].f.nodes[i].getPotential(); quietLo = std::min(quietLo, P); quietHi = std::max(quietHi, P); } }
        for (int q = 0; q < 2; ++q) { const double P = side[q].f.nodes[0].getPotential(); if (t > total - 100) swing = std::max(swing, std::fabs(P - lastP[q])); lastP[q] = P; }
    }
    if (!broken) {
        const bool d0 = side[0].link.mInterface.isInDemandRole(), d1 = side[1].link.mInterface.isInDemandRole();
        ctx.check(total - lastOpposite < 60, fmt("progress: long after the network healed both sides are in %s role", d0 ? "demand" : "supply"));
        bool driven = p.get("option") != 0; for (int s = 0; s < 2; ++s) for (auto& l : side[s].f.fl) driven |= l.kind == FluidNet::SRC || l.kind == FluidNet::FAN;
        if (!driven && quietHi > 0) {
            for (int q = 0; q < 2; ++q) { const double P = side[q].f.nodes[0].getPotential(); ctx.check(P > 0.8 * quietLo && P < 1.2 * quietHi, fmt("stability: the joined node of side %d is at %.9g kPa although all pressures were between %.9g and %.9g when the disturbances stopped", q, P, quietLo, quietHi)); }
            ctx.check(swing <= 0.05 * (quietHi - quietLo) + 1e-3 * quietHi, fmt("stability: long after all disturbances stopped the joined nodes still swing by %.9g kPa from frame to frame", swing)); ctx.probe("settled");
        }
    }
}

Register d02({"D02", "distinct = a different pair of networks or history of network faults, stalls, forced roles and malfunctions; trivial = no flow exchanged",
    "roles of both sides, roles last received, flow direction, forcing", {{"faulty", 2.0, genFaulty, runD02}, {"clean", 1.0, genClean, runD02}}, 6000, 150000,
    {"GunnsFluidDistributedIf and Distributed2WayBusFluid on both sides, two complete GUNNS fluid networks"}, {"data network between the simulations: simulated, last-value", "health & status manager replaced by a recorder"},
    {"Forced roles are set on both sides, opposite to each other", "Supply steps in which a node is asked for more than it holds are not judged"}});
} // namespace
} // namespace dst
