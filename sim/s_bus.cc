// D01, D03: the distributed two-way bus between two simulations over a faulty data network.
#include "wire.hh"
#include "busmsg.hh"
#include "interop/Distributed2WayBusElect.hh"

namespace dst {
namespace {

// ---- D01: fluid bus --------------------------------------------------------------------------------
struct FluidSide {
    std::unique_ptr<Distributed2WayBusFluid> bus; FluidMsg in; bool got; double cap; int force; long stallUntil, downUntil; int boot;
    int nx, nt; unsigned frames; bool master; bool wasSet; long flips;
    Distributed2WayBusFluidFluidState fluid; Distributed2WayBusFluidFlowState flow;
    FluidSide() : got(false), cap(1e-3), force(0), stallUntil(-1), downUntil(-1), boot(0), nx(2), nt(0), frames(0), master(false), wasSet(false), flips(0) {}
    void start() { bus.reset(new Distributed2WayBusFluid); in = FluidMsg(); got = false; frames = 0; ++boot; applyForce(); bus->initialize(master, nx, nt); fluid.initialize(nx, nt); flow.initialize(nx, nt); }
    void applyForce() { if (force == 1) bus->forceSupplyRole(); else if (force == 2) bus->forceDemandRole(); else bus->resetForceRole(); }
};

void genD01(Rng& r, Plan& p, bool deep) {
    const int frames = r.irange(30, deep ? 300 : 120);
    p.set("frames", frames); p.set("master", r.irange(0, 1));
    const int n = r.irange(1, 4), t = r.irange(0, 2);
    p.set("nx0", n); p.set("nt0", t); p.set("nx1", r.chance(0.7) ? n : r.irange(1, 4)); p.set("nt1", r.chance(0.7) ? t : r.irange(0, 2));
    const double c = r.logRange(1e-5, 1e-1);
    p.add("cap", {0, 0, c}); p.add("cap", {1, 0, r.chance(0.2) ? c : c * r.logRange(0.05, 20)});
    genWire(r, p, frames, 12, true);
    const int k = r.irange(0, 8);
    for (int i = 0; i < k; ++i) {
        const double s = r.irange(0, 1), at = r.irange(1, frames), u = r.u();
        if (u < 0.5) p.add("cap", {s, at, r.chance(0.1) ? 0.0 : c * r.logRange(0.05, 20)});
        else if (u < 0.7) p.add("stall", {s, at, (double)r.irange(1, 30)});
        else if (u < 0.8) p.add("crash", {s, at, (double)r.irange(0, 20)});
        else if (u < 0.92) p.add("force", {s, at, (double)r.irange(1, 2), (double)r.irange(5, 60)});   // both sides, opposite roles
        else p.add("garbage", {s, at, (double)r.irange(0, 4)});
    }
}

void runD01(const Plan& p, Ctx& ctx) {
    FluidSide side[2]; Wire<FluidMsg> wire[2];
    for (int s = 0; s < 2; ++s) { wire[s].rng = Rng(p.seed * 2 + s + 1); side[s].nx = std::max(1, p.geti(s ? "nx1" : "nx0", 2)); side[s].nt = std::max(0, p.geti(s ? "nt1" : "nt0", 0)); side[s].master = p.geti("master") == s; side[s].start(); }
    const long frames = std::min(2000, p.geti("frames", 60)); long quiet = frames, forceUntil = -1;
    long stable = 0; int tailFlips[2] = {0, 0};
    Rng val(p.seed + 77);
    const long total = frames + 1000;
    long settleAt = -1, bound = 0;
    for (long f = 0; f < total; ++f) {
        if (f < frames) {
            for (auto& o : p.ops) {
                if (wireOp(o, f, wire)) continue;
                if (o.i(1) != f) continue;
                FluidSide& s = side[std::abs(o.i(0)) % 2];
                if (o.kind == "cap") { s.cap = o.d(2); if (f) ctx.fault("capacitance_step"); }
                else if (o.kind == "stall") { s.stallUntil = f + o.i(2); ctx.fault("node_stall"); }
                else if (o.kind == "crash") { s.downUntil = f + o.i(2); s.start(); ctx.fault("process_restart"); }
                else if (o.kind == "force") { s.force = o.i(2); side[&s == side].force = 3 - o.i(2); s.applyForce(); side[&s == side].applyForce(); forceUntil = f + o.i(3); ctx.fault("forced_role"); }
                else if (o.kind == "garbage") { FluidMsg m = s.in; m.frame = std::max(1u, m.frame); const int g = o.i(2); if (g == 0) m.energy = -1; else if (g == 1) m.cap = -1e-3; else if (g == 2) { m.x.assign(s.nx, 0.5); m.x[0] = -0.1; } else if (g == 3) m.frame = 0; else { m.demand = false; m.source = -5; } s.in = m; s.got = true; ctx.fault("invalid_data"); }
            }
        } else if (f == frames) {
            for (int s = 0; s < 2; ++s) { wireQuiet(wire[s]); side[s].stallUntil = side[s].downUntil = -1; side[s].force = 0; side[s].applyForce(); }
            quiet = f; bound = 8 * (wire[0].latency + wire[1].latency + 3) + 30;
        }
        if (forceUntil == f && f < frames) for (int s = 0; s < 2; ++s) { side[s].force = 0; side[s].applyForce(); }
        for (int q = 0; q < 2; ++q) {
            const int s = (f % 2) ? 1 - q : q; FluidSide& a = side[s];
            FluidMsg m;
            if (f < a.downUntil) { wire[1 - s].receive(f, m, ctx); continue; }       // nobody listens
            if (wire[1 - s].receive(f, m, ctx)) { a.in = m; a.got = true; }
            if (f < a.stallUntil) continue;
            Distributed2WayBusFluid& b = *a.bus;
            if (a.got) a.in.to(b.mInData);
            ++a.frames;
            const bool role0 = b.isInDemandRole(), last = b.mInDataLastDemandMode; (void)last;
            const double capOut = b.mOutData.mCapacitance, capIn = b.mInData.mCapacitance; const bool inDemand = b.mInData.mDemandMode;
            const bool validIn = b.mInData.hasValidData();
            if (a.got) { FluidMsg seen; seen.from(b.mInData); ctx.check(validIn == seen.valid(), "valid: invalid data accepted or valid data refused"); } else ctx.check(!validIn, "valid: data reported valid before anything was received");
            b.processInputs();
            const bool role1 = b.isInDemandRole();
            ctx.check(b.mOutData.mFrameCount == a.frames, fmt("frames: frame counter is %u after %u frames", b.mOutData.mFrameCount, a.frames));
            ctx.check(b.mOutData.mFrameLoopback == (a.got ? a.in.frame : 0), "frames: the peer's frame number is not echoed back");
            ctx.check(b.mLoopLatency == static_cast<int>(a.frames - (a.got ? a.in.loop : 0)), "frames: wrong loop latency");
            if (role1 && !role0) ctx.check(a.force == 2 || (validIn && !inDemand && (capOut < capIn || (capOut == capIn && a.master))), fmt("roles: side %d took the demand role on input without cause (own %.6g, peer %.6g)", s, capOut, capIn));
            if (!role1 && role0) ctx.check(a.force == 1 || (validIn && inDemand), fmt("roles: side %d gave up the demand role although the peer does not demand", s));
            if (a.force) ctx.check(role1 == (a.force == 2), fmt("force: side %d is not in its forced role", s));
            // inputs are passed to the model only when the pairing makes them meaningful
            for (int i = 0; i < a.nx; ++i) a.fluid.mMoleFractions[i] = a.flow.mMoleFractions[i] = -7;
            a.fluid.mPressure = a.flow.mFlowRate = -7;
            const bool gf = b.getFluidState(a.fluid), gw = b.getFlowState(a.flow);
            const bool okF = role1 && validIn && !inDemand, okW = !role1 && validIn && inDemand;
            ctx.check(gf == okF && gw == okW, fmt("gating: side %d in %s role with peer in %s: fluid state %d, flow state %d", s, role1 ? "demand" : "supply", inDemand ? "demand" : "supply", gf, gw));
            ctx.check(gf || a.fluid.mPressure == -7, "gating: the fluid state changed though none was available");
            ctx.check(gw || a.flow.mFlowRate == -7, "gating: the flow state changed though none was available");
            if (gf) { ctx.check(a.fluid.mPressure == a.in.source && a.fluid.mEnergy == a.in.energy, "data: received fluid state differs from the one sent"); ctx.check(a.fluid.mPressure >= 0, "data: negative pressure received"); }
            if (gw) { ctx.check(a.flow.mFlowRate == a.in.source && a.flow.mEnergy == a.in.energy, "data: received flow state differs from the one sent"); ctx.check(a.flow.mFlowRate == 0 || (std::fabs(a.flow.mFlowRate) < 1000 && a.flow.mFlowRate != 0), fmt("data: a pressure of %g arrived as a flow rate", a.flow.mFlowRate)); }
            if (gf || gw) for (int i = 0; i < a.nx; ++i) { const double want = i < (int)a.in.x.size() ? a.in.x[i] : 0.0, g = gf ? a.fluid.mMoleFractions[i] : a.flow.mMoleFractions[i]; ctx.check(g == want, fmt("data: mole fraction %d received as %g, sent %g", i, g, want)); }
            if (gf || gw) for (int i = 0; i < a.nt; ++i) { const double want = i < (int)a.in.tc.size() ? a.in.tc[i] : 0.0, g = gf ? a.fluid.mTcMoleFractions[i] : a.flow.mTcMoleFractions[i]; ctx.check(g == want, fmt("data: trace compound fraction %d received as %g, sent %g", i, g, want)); }
            // demand flow limit
            const double P = val.range(0, 2e5), dt = val.pick(std::vector<double>{0.0, 0.0125, 0.1, 1.0});
            const double lim = b.computeDemandLimit(dt, P), g = b.getDemandLimitGain();
            double wantG = 0, wantL = 0;
            if (role1 && !inDemand && dt > 0 && b.mOutData.mCapacitance > DBL_EPSILON && b.mInData.mCapacitance > DBL_EPSILON) {
                const double lag = std::min(1.0, 1.5 * std::pow(0.75, std::min(100, std::max(1, b.mLoopLatency))));
                const double ratio = std::min(1.25, std::max(1.0, b.mInData.mCapacitance / b.mOutData.mCapacitance));
                wantG = lag + (1 - lag) * (ratio - 1) * 4; wantL = wantG * std::fabs(P - b.mInData.mSource) / (dt * (1 / b.mOutData.mCapacitance + 1 / b.mInData.mCapacitance));
            }
            ctx.check(near(lim, wantL, 1e-9, 1e-300) && near(g, wantG, 1e-12, 1e-15), fmt("limit: demand flow limit %g (gain %g), the filter gives %g (%g)", lim, g, wantL, wantG));
            ctx.check(g >= 0 && g <= 1 + 1e-12, "limit: gain outside 0 to 1");
            // model update and outputs
            const double pressure = 1e5 + f + 0.25 * s, flow = ((f % 2) ? -1.0 : 1.0) * (1.0 + f * 0.1 + 0.5 * s), energy = 250.0 + f + s;
            std::vector<double> x(a.nx), tc(a.nt); for (int i = 0; i < a.nx; ++i) x[i] = (1.0 + i + f % 5) / 100.0; for (int i = 0; i < a.nt; ++i) tc[i] = (1.0 + i + f % 3) * 1e-4;
            Distributed2WayBusNotification note; int notes = 0, warns = 0;
            auto drain = [&]() { unsigned left; do { left = b.popNotification(note); if (note.mLevel == Distributed2WayBusNotification::INFO) ++notes; else if (note.mLevel == Distributed2WayBusNotification::WARN) ++warns; else ctx.check(left == 0, "notify: empty notification while others wait"); } while (left > 0); };
            drain();
            ctx.check(notes == (role1 != role0) && warns == 0, fmt("notify: %d role notifications for %d role changes", notes, role1 != role0));
            notes = 0;
            Distributed2WayBusFluidFluidState of; of.initialize(a.nx, a.nt); Distributed2WayBusFluidFlowState ow; ow.initialize(a.nx, a.nt);
            for (int i = 0; i < a.nx; ++i) of.mMoleFractions[i] = ow.mMoleFractions[i] = x[i];
            for (int i = 0; i < a.nt; ++i) of.mTcMoleFractions[i] = ow.mTcMoleFractions[i] = tc[i];
            of.mPressure = pressure; of.mEnergy = ow.mEnergy = energy; ow.mFlowRate = flow;
            const bool wrong = val.chance(0.02);
            if (wrong) { if (role1) b.setFluidState(of); else b.setFlowState(ow); drain(); ctx.check(warns == 1, "notify: setting the state of the other role was not warned about"); ctx.fault("misuse"); }
            if (role1) b.setFlowState(ow); else b.setFluidState(of);
            b.processOutputs(a.cap);
            const bool role2 = b.isInDemandRole();
            notes = 0; drain();
            ctx.check(notes == (role2 != role1), "notify: role change on output not announced exactly once");
            ctx.check(!(role1 && !role2), "roles: gave up the demand role on output");
            if (role2 && !role1) { ctx.check(a.force != 1 && a.cap * 1.25 < b.mInData.mCapacitance, fmt("roles: side %d took the demand role with capacitance %.6g against %.6g", s, a.cap, b.mInData.mCapacitance)); ctx.probe("output_flip"); }
            if (a.force) ctx.check(role2 == (a.force == 2), fmt("force: side %d left its forced role on output", s));
            ctx.check(b.mOutData.mCapacitance == a.cap, "data: capacitance not sent");
            const double wantS = role1 ? flow : role2 ? 0.0 : pressure;
            ctx.check(b.mOutData.mSource == wantS, fmt("data: side %d in %s role sends %g, its model gave %g", s, role2 ? "demand" : "supply", b.mOutData.mSource, wantS));
            ctx.check(b.mOutData.mEnergy == energy, "data: energy not sent");
            for (int i = 0; i < a.nx; ++i) ctx.check(b.mOutData.mMoleFractions[i] == x[i], "data: mole fractions not sent");
            for (int i = 0; i < a.nt; ++i) ctx.check(b.mOutData.mTcMoleFractions[i] == tc[i], "data: trace compound fractions not sent");
            if (role2 != role0) { ++a.flips; if (f > quiet + bound) ++tailFlips[s]; ctx.probe("role_change"); }
            FluidMsg out; out.from(b.mOutData); out.boot = a.boot;
            wire[s].send(f, out, ctx);
        }
        ctx.advance(0.1);
        const bool d0 = side[0].bus->isInDemandRole(), d1 = side[1].bus->isInDemandRole();
        if (f % 7 == 0) ctx.log(fmt("%ld %d %d", f, d0, d1));
        ctx.state(Ctx::hashStr(fmt("%d%d/%d%d/%ld/%d%d", d0, d1, side[0].in.demand, side[1].in.demand, std::min(20L, f > quiet ? 20L : side[0].flips + side[1].flips), side[0].force, side[1].force)));
        if (f >= quiet && bound) {
            const double cs = d0 ? side[1].cap : side[0].cap, cd = d0 ? side[0].cap : side[1].cap;
            const bool good = d0 != d1 && cs * 1.25 >= cd;
            stable = good ? stable + 1 : 0;
            if (stable == 1) settleAt = f;
            if (f == quiet + bound) ctx.check(good, fmt("progress: %ld frames after the network healed the sides are in %s and %s role with capacitances %.6g and %.6g", bound, d0 ? "demand" : "supply", d1 ? "demand" : "supply", side[0].cap, side[1].cap));
            if (f > quiet + bound) ctx.check(good, "progress: the roles changed again after they had settled");
            if (f > quiet + bound + 40) break;
        }
    }
    ctx.logd("settle", settleAt - quiet);
}

Register d01({"D01", "distinct = a different history of capacitances, network faults, stalls and restarts; trivial = no frame exchanged",
    "roles of both sides, roles last received, flips so far, forcing", {{"fluid-bus", 1.0, genD01, runD01}}, 20000, 3000000,
    {"Distributed2WayBusFluid on both sides (real code)"}, {"data network between the simulations: simulated, last-value", "local models: scripted pressures, flows and capacitances"},
    {"Forced roles are set on both sides, opposite to each other"}});
// ---- D03: electrical bus ---------------------------------------------------------------------------
struct ElectMsg {
    unsigned frame, loop; bool demand; float power, volts;
    ElectMsg() : frame(0), loop(0), demand(false), power(0), volts(0) {}
    void from(const Distributed2WayBusElectInterfaceData& d) { frame = d.mFrameCount; loop = d.mFrameLoopback; demand = d.mDemandMode; power = d.mDemandPower; volts = d.mSupplyVoltage; }
    void to(Distributed2WayBusElectInterfaceData& d) const { d.mFrameCount = frame; d.mFrameLoopback = loop; d.mDemandMode = demand; d.mDemandPower = power; d.mSupplyVoltage = volts; }
};
struct ElectSide {
    std::unique_ptr<Distributed2WayBusElect> bus; ElectMsg in; bool got; std::vector<std::pair<bool, float> > sup; std::vector<Distributed2WayBusElectSupplyData*> data;
    int force; long stallUntil, downUntil; unsigned frames; bool primary; float load, droop; int sinceFlip;
    ElectSide() : got(false), force(0), stallUntil(-1), downUntil(-1), frames(0), primary(false), load(10), droop(0), sinceFlip(0) {}
    void start(float v0) { bus.reset(new Distributed2WayBusElect); in = ElectMsg(); got = false; frames = 0; sinceFlip = 0; data.clear(); for (size_t i = 0; i < sup.size(); ++i) data.push_back(bus->createSupplyData()); bus->initialize(primary, v0); applyForce(); }
    void applyForce() { if (force == 1) bus->forceSupplyRole(); else if (force == 2) bus->forceDemandRole(); else bus->resetForceRole(); }
    float avail() const { float v = 0; for (auto& q : sup) if (q.first && q.second > v) v = q.second; return v; }
};

void genD03(Rng& r, Plan& p, bool deep) {
    const int frames = r.irange(30, deep ? 300 : 120);
    p.set("frames", frames); p.set("primary", r.irange(0, 1));
    p.set("v0", r.chance(0.3) ? 0.0 : 28.0);
    for (int s = 0; s < 2; ++s) { const int n = r.irange(s == 0 ? 1 : 0, 3); for (int i = 0; i < n; ++i) p.add("supply", {(double)s, (double)r.chance(0.7), r.chance(0.3) ? 28.0 : r.range(5, 120)}); p.add("droop", {(double)s, 0, r.chance(0.5) ? 0.0 : r.range(0, 1)}); }
    genWire(r, p, frames, 12, true);
    const int k = r.irange(0, 10);
    for (int i = 0; i < k; ++i) {
        const double s = r.irange(0, 1), at = r.irange(1, frames), u = r.u();
        if (u < 0.45) p.add("avail", {s, at, (double)r.irange(0, 2), (double)r.chance(0.6), r.chance(0.3) ? 28.0 : r.range(5, 120)});
        else if (u < 0.6) p.add("load", {s, at, r.range(-50, 500)});
        else if (u < 0.75) p.add("stall", {s, at, (double)r.irange(1, 30)});
        else if (u < 0.85) p.add("crash", {s, at, (double)r.irange(0, 20)});
        else p.add("force", {s, at, (double)r.irange(1, 2), (double)r.irange(5, 60)});
    }
}

void runD03(const Plan& p, Ctx& ctx) {
    ElectSide side[2]; Wire<ElectMsg> wire[2];
    const float v0 = static_cast<float>(p.get("v0", 28.0));
    for (auto& o : p.ops) if (o.kind == "supply") side[std::abs(o.i(0)) % 2].sup.push_back({o.b(1), static_cast<float>(o.d(2))});
    const int pr = p.geti("primary");
    for (int s = 0; s < 2; ++s) { wire[s].rng = Rng(p.seed * 2 + s + 1); side[s].primary = pr == s; side[s].start(v0); ctx.check(side[s].bus->isInDemandRole() == !side[s].primary, "init: the primary side does not start in supply role"); }
    const long frames = std::min(2000, p.geti("frames", 60)); long quiet = frames, forceUntil = -1, bound = 0;
    Rng val(p.seed + 77);
    for (long f = 0; f < frames + 1000; ++f) {
        if (f < frames) {
            for (auto& o : p.ops) {
                if (o.kind == "supply" || wireOp(o, f, wire) || o.i(1) != f) continue;
                ElectSide& s = side[std::abs(o.i(0)) % 2];
                if (o.kind == "avail" && !s.sup.empty()) { s.sup[std::abs(o.i(2)) % s.sup.size()] = {o.b(3), static_cast<float>(o.d(4))}; ctx.fault("supply_change"); }
                else if (o.kind == "load") { s.load = static_cast<float>(o.d(2)); ctx.fault("load_step"); }
                else if (o.kind == "droop") s.droop = static_cast<float>(o.d(2));
                else if (o.kind == "stall") { s.stallUntil = f + o.i(2); ctx.fault("node_stall"); }
                else if (o.kind == "crash") { s.downUntil = f + o.i(2); s.start(v0); ctx.fault("process_restart"); }
                else if (o.kind == "force") { s.force = o.i(2); side[&s == side].force = 3 - o.i(2); s.applyForce(); side[&s == side].applyForce(); forceUntil = f + o.i(3); ctx.fault("forced_role"); }
            }
        } else if (f == frames) {
            for (int s = 0; s < 2; ++s) { wireQuiet(wire[s]); side[s].stallUntil = side[s].downUntil = -1; side[s].force = 0; side[s].applyForce(); }
            quiet = f; bound = 8 * (wire[0].latency + wire[1].latency + 3) + 30;
        }
        if (forceUntil == f && f < frames) for (int s = 0; s < 2; ++s) { side[s].force = 0; side[s].applyForce(); }
        for (int q = 0; q < 2; ++q) {
            const int s = (f % 2) ? 1 - q : q; ElectSide& a = side[s]; ElectMsg m;
            if (f < a.downUntil) { wire[1 - s].receive(f, m, ctx); continue; }
            if (wire[1 - s].receive(f, m, ctx)) { a.in = m; a.got = true; }
            if (f < a.stallUntil) continue;
            Distributed2WayBusElect& b = *a.bus;
            if (a.got) a.in.to(b.mInData);
            ++a.frames; ++a.sinceFlip;
            b.processInputs();
            ctx.check(b.mOutData.mFrameCount == a.frames && b.mOutData.mFrameLoopback == b.mInData.mFrameCount, "frames: frame counting or echo is wrong");
            const int lat = static_cast<int>(a.frames - b.mInData.mFrameLoopback);
            ctx.check(b.mLoopLatency == lat, "frames: wrong loop latency");
            ctx.check(b.mInData.hasValidData() == (b.mInData.mFrameCount > 1), "valid: wrong data validity");
            const int minor = f % 5 == 0 ? 3 : 1;
            for (int k = 0; k < minor; ++k) {
                const float av = a.avail();
                for (size_t i = 0; i < a.data.size(); ++i) { a.data[i]->mAvailable = a.sup[i].first; a.data[i]->mMaximumVoltage = a.sup[i].second; }
                const bool was = b.isInDemandRole();
                const float local = was ? b.getRemoteSupply() : std::max(0.0f, av - a.droop), load = was ? a.load + k : 0.0f;
                b.update(local, load);
                const bool is = b.isInDemandRole();
                if (a.force) ctx.check(is == (a.force == 2), "force: not in the forced role");
                else if (was && !is) ctx.check(b.mInData.mDemandMode && b.mInData.mFrameLoopback > 0 && a.sinceFlip > lat, fmt("roles: side %d took the supply role %d frames after its last change with a loop of %d, peer %s", s, a.sinceFlip, lat, b.mInData.mDemandMode ? "demands" : "supplies"));
                else if (!was && is) ctx.check(b.mInData.mFrameLoopback > 0 && (av < b.mInData.mSupplyVoltage || (!b.mInData.mDemandMode && a.sinceFlip > lat)), fmt("roles: side %d gave up the supply role with %g V available against %g V", s, av, b.mInData.mSupplyVoltage));
                else if (was) ctx.check(!(b.mInData.mDemandMode && b.mInData.mFrameLoopback > 0 && a.sinceFlip > lat), "roles: both sides demand and this one does not take over the supply");
                else ctx.check(!(b.mInData.mFrameLoopback > 0 && av < b.mInData.mSupplyVoltage), fmt("roles: side %d keeps the supply role with %g V available against %g V", s, av, b.mInData.mSupplyVoltage));
                Distributed2WayBusNotification note; int notes = 0; unsigned left; do { left = b.popNotification(note); notes += note.mLevel == Distributed2WayBusNotification::INFO; } while (left > 0);
                ctx.check(a.force || notes == (was != is), "notify: role change not announced exactly once");
                if (was != is && !a.force) { a.sinceFlip = 0; ctx.probe("role_change"); }
                if (is) ctx.check(b.mOutData.mSupplyVoltage == av && b.mOutData.mDemandPower == load, fmt("data: demand side sends %g V %g W, it has %g V available and draws %g W", b.mOutData.mSupplyVoltage, b.mOutData.mDemandPower, av, load));
                else ctx.check(b.mOutData.mSupplyVoltage == local && b.mOutData.mDemandPower == 0, fmt("data: supply side sends %g V %g W, its bus is at %g V", b.mOutData.mSupplyVoltage, b.mOutData.mDemandPower, local));
                ctx.check(b.getRemoteLoad() == (is ? 0.0f : b.mInData.mDemandPower), "data: wrong remote load");
                ctx.check(b.getRemoteSupply() == b.mInData.mSupplyVoltage, "data: wrong remote supply voltage");
            }
            ElectMsg out; out.from(b.mOutData); wire[s].send(f, out, ctx);
        }
        ctx.advance(0.1);
        const bool d0 = side[0].bus->isInDemandRole(), d1 = side[1].bus->isInDemandRole();
        if (f % 7 == 0) ctx.log(fmt("%ld %d %d", f, d0, d1));
        const float a0 = side[0].avail(), a1 = side[1].avail();
        ctx.state(Ctx::hashStr(fmt("%d%d/%d%d/%d/%d%d", d0, d1, side[0].in.demand, side[1].in.demand, a0 < a1 ? 0 : a0 == a1 ? 1 : 2, side[0].force, side[1].force)));
        if (f >= quiet + bound) {
            const float as = d0 ? a1 : a0, ad = d0 ? a0 : a1;
            ctx.check(d0 != d1, fmt("progress: %ld frames after the network healed both sides are in %s role (%g V and %g V available)", f - quiet, d0 ? "demand" : "supply", a0, a1));
            ctx.check(as >= ad, fmt("progress: the side with %g V supplies although the other has %g V", as, ad));
            if (f == quiet + bound + 40) { ElectSide& sup = side[d0 ? 1 : 0]; ElectSide& dem = side[d0 ? 0 : 1]; const float w = sup.bus->getRemoteLoad(); ctx.check(w == dem.load || w == dem.load + 2, fmt("progress: the supply side carries %g W of the %g W drawn", w, dem.load)); break; }
        }
    }
}

Register d03({"D03", "distinct = a different history of supplies, loads, network faults, stalls and restarts; trivial = no frame exchanged",
    "roles of both sides, roles last received, voltage order, forcing", {{"elect-bus", 1.0, genD03, runD03}}, 40000, 3000000,
    {"Distributed2WayBusElect on both sides (real code)"}, {"data network between the simulations: simulated, last-value", "local circuits: scripted supplies, droop and loads"},
    {"Forced roles are set on both sides, opposite to each other"}});
} // namespace
} // namespace dst
