// F01-F04: conservation of mass, energy and trace compounds, and physical bounds, in fluid networks under
// disturbance schedules.
#include "trace.hh"
#include "fluidnet.hh"

namespace dst {
namespace {

struct Ledger {
    double mass, slack, cumSlack, cumErr; std::vector<double> sp, tc, cumSp, cumTc;
};

enum { JUDGE_MASS = 1, JUDGE_HEAT = 2, JUDGE_TC = 4, JUDGE_BOUNDS = 8 };

/// Whatever happened to a fluid, its derived properties are those of a fresh one with the same temperature, pressure and mixture.
void derivedState(const PolyFluid& c, const PolyFluidConfigData* cfg, int nx, int node, Ctx& ctx) {
    double x[16], sum = 0; for (int k = 0; k < nx; ++k) sum += x[k] = c.getMassFraction(k); for (int k = 0; k < nx; ++k) x[k] /= sum;
    PolyFluid r(*cfg, PolyFluidInputData(c.getTemperature(), c.getPressure(), 0, c.getMass(), x));
    const double T = 1e-9;
    auto same = [&](const char* what, double a, double b) { ctx.check(near(a, b, T, 1e-15), fmt("derived: %s of node %d is %.15g, its mixture at %.9g K and %.9g kPa has %.15g", what, node, a, c.getTemperature(), c.getPressure(), b)); };
    same("molecular weight", c.getMWeight(), r.getMWeight()); same("density", c.getDensity(), r.getDensity()); same("viscosity", c.getViscosity(), r.getViscosity()); same("specific heat", c.getSpecificHeat(), r.getSpecificHeat());
    same("conductivity", c.getThermalConductivity(), r.getThermalConductivity()); same("Prandtl number", c.getPrandtlNumber(), r.getPrandtlNumber()); same("adiabatic index", c.getAdiabaticIndex(), r.getAdiabaticIndex()); same("enthalpy", c.getSpecificEnthalpy(), r.getSpecificEnthalpy());
    for (int k = 0; k < nx; ++k) same("mole fraction", c.getMoleFraction(k), r.getMoleFraction(k));
    if (c.getMass() > 1e-12) same("moles", c.getMole(), r.getMole());
}
void runFluid(const Plan& p, Ctx& ctx, int judge) {
    HsTap hs; FluidNet f; f.build(p);
    const int steps = std::min(2000, p.geti("steps", 60)), tail = (judge & JUDGE_BOUNDS) ? 400 : 0;
    const int n = f.n, nx = f.nx, nt = f.nt;
    double tLo = 1e9, tHi = 0; std::vector<double> xLo(nx, 1e9), xHi(nx, 0), cLo(nt, 1e9), cHi(nt, 0);
    for (int i = 0; i < n; ++i) {
        PolyFluid* c = f.nodes[i].getContent(); tLo = std::min(tLo, c->getTemperature()); tHi = std::max(tHi, c->getTemperature());
        for (int k = 0; k < nx; ++k) { xLo[k] = std::min(xLo[k], c->getMassFraction(k)); xHi[k] = std::max(xHi[k], c->getMassFraction(k)); }
        for (int k = 0; k < nt; ++k) { const double v = c->getTraceCompounds()->getMoleFractions()[k]; cLo[k] = std::min(cLo[k], v); cHi[k] = std::max(cHi[k], v); }
    }
    bool heated = false, boundary = false;
    for (auto& l : f.fl) { heated |= l.kind == FluidNet::PIPE || l.kind == FluidNet::HX; boundary |= l.kind >= FluidNet::LEAK; }
    bool expand = false; for (int i = 0; i < n; ++i) if (f.caps[i]) expand |= f.caps[i]->mExpansionScaleFactor > 0; for (auto& l : f.fl) if (l.c) expand |= l.c->mExpansionScaleFactor > 0;
    std::vector<double> cum(n, 0), cumT(n, 0); double slackCum = 0; bool bad = false; int settled = 0; long warned = 0; std::vector<double> pLate(n, 0);
    std::vector<double> cumErrSp(nx, 0), cumErrTc(nt, 0); double cumErrH = 0, cumH = 0;
    for (int step = 1; step <= steps + tail; ++step) {
        if (step <= steps) for (auto& o : p.ops) f.event(o, step, ctx);
        const double dt = f.dt;
        // ledger before
        std::vector<double> m0(n), mol0(n), h0(n), T0(n); std::vector<std::vector<double> > s0(n, std::vector<double>(nx)), c0(n, std::vector<double>(nt));
        for (int i = 0; i < n; ++i) { m0[i] = f.mass(i); mol0[i] = f.nodes[i].mContent.getMole(); h0[i] = f.enthalpy(i); T0[i] = f.nodes[i].mContent.getTemperature(); for (int k = 0; k < nx; ++k) s0[i][k] = f.species(i, k); for (int k = 0; k < nt; ++k) c0[i][k] = f.tcMass(i, k); }
        hs.msgs.clear();
        f.snapshot(); f.net.step(dt);
        ctx.advance(dt);
        warned = 0; for (auto& m : hs.msgs) { if (ctx.verbose) fprintf(stderr, "  step %d hs: %s\n", step, m.text.c_str()); warned += m.text.find("conservation errors") != std::string::npos; }
        if (f.net.mLastMinorStep < 0) break;
        double pMax = 0; for (int i = 0; i < n; ++i) pMax = std::max(pMax, std::fabs(f.nodes[i].getPotential()));
        if (!finite(pMax) || pMax > 1e5) { ctx.probe("runaway_pressure"); break; }
        if (hs.count(TS_HS_ERROR) > 0) { ctx.probe("solver_error"); break; }
        // which nodes were asked for more than they had: documented to break conservation
        bool over = warned > 0; std::vector<bool> od(n, false); double slackZero = 0, mwMax = 0, hMax = 0;
        for (int i = 0; i < n; ++i) {
            GunnsFluidNode& nd = f.nodes[i]; const double mw = nd.mInflow.getMWeight(); const double inMol = mw > DBL_EPSILON ? std::max(0.0, nd.mInfluxRate) * dt / mw : 0.0;
            mwMax = std::max(mwMax, nd.mContent.getMWeight()); hMax = std::max(hMax, std::fabs(nd.mContent.getSpecificEnthalpy()));
            if (nd.getVolume() > 0) { if (nd.mScheduledOutflux * dt > (mol0[i] + inMol) * (1 - 1e-12) || m0[i] < 1e-12 || f.mass(i) < 1e-12) over = od[i] = true; else if (nd.mScheduledOutflux * dt > mol0[i]) ctx.probe("flow_through_overflow"); }
        }
        // negative or reversed-through-zero pressures make links move fluid that does not exist
        for (int i = 0; i < n; ++i) if (f.nodes[i].getPotential() < 0) { over = od[i] = true; }
        if (over) { ctx.probe("overdrawn_step"); bad = true; }
        traceStep(f.net, over);
        double slack = 1e-13 * dt * (f.fl.size() + 1);
        for (auto& l : f.fl) { const double A = l.l->mAdmittanceMatrix[0]; const bool zero = (l.l->mNodeMap[0] < n && f.nodes[l.l->mNodeMap[0]].getVolume() <= 0) || (l.l->mNodeMap[1] < n && f.nodes[l.l->mNodeMap[1]].getVolume() <= 0); if (zero) slackZero += std::fabs(A) * (pMax + 1) * 1e-12 * std::max(mwMax, 1.0) * dt; }
        // node ledgers from the links' declared flows
        std::vector<double> dm(n, 0), dh(n, 0); std::vector<std::vector<double> > ds(n, std::vector<double>(nx, 0)), dc(n, std::vector<double>(nt, 0));
        double bm = 0; std::vector<double> bs(nx, 0), bc(nt, 0); double heat = 0, bh = 0;
        for (auto& l : f.fl) {
            const double w = l.l->mFlowRate; if (w == 0) continue;
            const int a = l.l->mNodeMap[0], b = l.l->mNodeMap[1]; const PolyFluid* fluid = f.moved(l);
            const int src = w > 0 ? a : b, dst_ = w > 0 ? b : a; const double q = std::fabs(w);
            ctx.check(finite(w), "finite: a link's flow rate is not finite");
            const double hs_ = src < n ? f.nodes[src].mOutflow.getSpecificEnthalpy() : fluid->getSpecificEnthalpy(), hd = fluid->getSpecificEnthalpy();
            const GunnsFluidTraceCompounds* tcs = nt ? fluid->getTraceCompounds() : 0; const double mol = fluid->getMWeight() > 0 ? q / fluid->getMWeight() : 0.0;
            if ((judge & JUDGE_MASS) && warned == 0) ctx.check(near(std::fabs(l.l->mFlux) * fluid->getMWeight(), q, 1e-9, 1e-12), fmt("flow: link %s moves %g kg/s but %g kmol/s of %g kg/kmol", l.l->getName(), w, l.l->mFlux, fluid->getMWeight()));
            if (src < n) { dm[src] -= q; dh[src] -= q * hs_; for (int k = 0; k < nx; ++k) ds[src][k] -= q * fluid->getMassFraction(k); for (int k = 0; k < nt; ++k) dc[src][k] -= mol * tcs->getMoleFractions()[k] * f.tcMw(k); } else { bm += q; bh += q * hd; for (int k = 0; k < nx; ++k) bs[k] += q * fluid->getMassFraction(k); for (int k = 0; k < nt; ++k) bc[k] += mol * tcs->getMoleFractions()[k] * f.tcMw(k); }
            if (dst_ < n) { dm[dst_] += q; dh[dst_] += q * hd; for (int k = 0; k < nx; ++k) ds[dst_][k] += q * fluid->getMassFraction(k); for (int k = 0; k < nt; ++k) dc[dst_][k] += mol * tcs->getMoleFractions()[k] * f.tcMw(k); } else { bm -= q; bh -= q * hd; for (int k = 0; k < nx; ++k) bs[k] -= q * fluid->getMassFraction(k); for (int k = 0; k < nt; ++k) bc[k] -= mol * tcs->getMoleFractions()[k] * f.tcMw(k); }
            if (src < n) heat += q * (hd - hs_);
            if ((judge & JUDGE_HEAT) && src < n && !expand && warned == 0 && q > 1e-11) {
                if (l.kind == FluidNet::PIPE || l.kind == FluidNet::FAN) { const double wall = l.kind == FluidNet::PIPE ? static_cast<GunnsFluidPipe*>(l.l)->mWallHeatFlux : static_cast<GunnsGasFan*>(l.l)->mWallHeatFlux; ctx.check(near(q * (hd - hs_), -wall, 1e-7, 1e-9 * (1 + q * std::fabs(hs_))), fmt("wall: pipe gives its fluid %.9g W but takes %.9g W from the wall", q * (hd - hs_), -wall)); }
                else if (l.kind == FluidNet::HX) { const auto* hx = static_cast<GunnsFluidHeatExchanger*>(l.l); double w2 = 0; for (int s = 0; s < hx->mNumSegs; ++s) w2 -= hx->mSegEnergyGain[s]; ctx.check(near(q * (hd - hs_), w2, 1e-7, 1e-9 * (1 + q * std::fabs(hs_))), fmt("wall: heat exchanger gives its fluid %.9g W but its segments lose %.9g W", q * (hd - hs_), w2)); }
                else ctx.check(near(hd, hs_, 1e-9, 1e-9), fmt("adiabatic: link %s changes the enthalpy of the fluid it passes from %.12g to %.12g J/kg", l.l->getName(), hs_, hd));
            }
            if (l.kind <= FluidNet::QD && (judge & JUDGE_BOUNDS)) { const double dP = l.l->mPotentialVector[0] - l.l->mPotentialVector[1]; ctx.check(dP * w >= -1e-15, fmt("direction: passive link %s flows %g kg/s against a pressure drop of %g kPa", l.l->getName(), w, dP)); }
        }
        double M0 = 0, M1 = 0;
        for (int i = 0; i < n; ++i) { M0 += m0[i]; M1 += f.mass(i); }
        slackCum += slack + slackZero + 1e-13 * (M0 + M1);
        const double sl = slack + slackZero + 1e-12 * (M0 + M1);
        if (judge & JUDGE_MASS) {
            // a node can only hand over what it holds or receives
            for (int i = 0; i < n; ++i) if (!od[i] && warned == 0 && f.nodes[i].getVolume() > 0) {
                const double scale = m0[i] + std::fabs(dm[i]) * dt;
                ctx.check(near(f.mass(i) - m0[i], dm[i] * dt, 0, 1e-12 * scale + slack), fmt("node mass: node %d gained %.15g kg in step %d, its links delivered %.15g kg", i, f.mass(i) - m0[i], step, dm[i] * dt));
                for (int k = 0; k < nx; ++k) ctx.check(near(f.species(i, k) - s0[i][k], ds[i][k] * dt, 0, 1e-11 * scale + slack), fmt("node species: node %d gained %.15g kg of species %d in step %d, its links delivered %.15g kg", i, f.species(i, k) - s0[i][k], k, step, ds[i][k] * dt));
            } else if (!over && f.nodes[i].getVolume() <= 0) ctx.check(std::fabs(dm[i]) * dt <= slackZero + slack + 1e-9 * std::fabs(f.nodes[i].mInfluxRate) * dt, fmt("node mass: zero-volume node %d keeps %.9g kg/s of the %.9g kg/s it receives", i, dm[i], f.nodes[i].mInfluxRate));
            if (!over) {
                ctx.check(near(M1 - M0, bm * dt, 0, sl), fmt("total mass: changed by %.15g kg in step %d, boundaries supplied %.15g kg", M1 - M0, step, bm * dt));
                for (int k = 0; k < nx; ++k) { double a = 0, b = 0; for (int i = 0; i < n; ++i) { a += s0[i][k]; b += f.species(i, k); } cumErrSp[k] += b - a - bs[k] * dt; ctx.check(near(b - a, bs[k] * dt, 0, 10 * sl), fmt("total species: species %d changed by %.15g kg in step %d, boundaries supplied %.15g kg", k, b - a, step, bs[k] * dt)); ctx.check(std::fabs(cumErrSp[k]) <= 10 * slackCum, fmt("total species: species %d drifted by %.9g kg over %d steps", k, cumErrSp[k], step)); }
            }
        }
        if ((judge & JUDGE_TC) && nt) {
            for (int i = 0; i < n; ++i) {
                const double floor = 1e-15 * f.nodes[i].mContent.getMole() * 100;      // concentrations below DBL_EPSILON are cut to zero
                if (!od[i] && warned == 0 && f.nodes[i].getVolume() > 0) for (int k = 0; k < nt; ++k) {
                    const double scale = c0[i][k] + std::fabs(dc[i][k]) * dt;
                    ctx.check(near(f.tcMass(i, k) - c0[i][k], dc[i][k] * dt, 0, 1e-10 * scale + 1e-3 * slack + floor), fmt("node trace: node %d gained %.12g kg of compound %d in step %d, its links delivered %.12g kg", i, f.tcMass(i, k) - c0[i][k], k, step, dc[i][k] * dt));
                }
                for (int k = 0; k < nt; ++k) { const double mf = f.nodes[i].mContent.getTraceCompounds()->getMoleFractions()[k]; ctx.check(mf >= 0 && finite(mf) && f.tcMass(i, k) >= 0, fmt("trace bounds: node %d holds %g of compound %d", i, mf, k)); if (f.nodes[i].getVolume() > 0 && f.nodes[i].mContent.getMole() > 0) ctx.check(near(f.tcMass(i, k), mf * f.nodes[i].mContent.getMole() * f.tcMw(k), 1e-9, floor), fmt("trace consistency: node %d mass %g kg of compound %d disagrees with its mole fraction %g", i, f.tcMass(i, k), k, mf)); if (!boundary && !bad) ctx.check(mf <= cHi[k] * (1 + 1e-9) + 1e-14, fmt("trace bounds: compound %d concentrated to %g, no node started above %g", k, mf, cHi[k])); }
            }
            if (!over) for (int k = 0; k < nt; ++k) { double a = 0, b = 0, mol = 0; for (int i = 0; i < n; ++i) { a += c0[i][k]; b += f.tcMass(i, k); mol += f.nodes[i].mContent.getMole(); } const double tol = 1e-10 * (a + b) + 1e-2 * sl + 1e-13 * mol; ctx.check(near(b - a, bc[k] * dt, 0, tol), fmt("total trace: compound %d changed by %.12g kg in step %d, boundaries supplied %.12g kg", k, b - a, step, bc[k] * dt)); }
        }
        if ((judge & JUDGE_HEAT) && !expand) {
            for (int i = 0; i < n; ++i) if (!od[i] && warned == 0 && f.nodes[i].getVolume() > 0) {
                const double scale = std::fabs(h0[i]) + std::fabs(dh[i]) * dt + std::fabs(f.nodes[i].mInfluxRate * f.nodes[i].mInflow.getSpecificEnthalpy()) * dt;
                ctx.check(near(f.enthalpy(i) - h0[i], dh[i] * dt, 0, 1e-9 * scale + slack * hMax), fmt("node energy: node %d gained %.12g J in step %d, its links delivered %.12g J", i, f.enthalpy(i) - h0[i], step, dh[i] * dt));
            }
            if (!over) { double a = 0, b = 0; for (int i = 0; i < n; ++i) { a += h0[i]; b += f.enthalpy(i); } const double thru = std::fabs(heat) * dt; cumErrH += b - a - (heat + bh) * dt; cumH = std::max(cumH, std::fabs(a)); ctx.check(near(b - a, (heat + bh) * dt, 0, 1e-9 * (std::fabs(a) + thru + std::fabs(bh) * dt) + sl * hMax * 10), fmt("total energy: changed by %.12g J in step %d, heat and boundaries supplied %.12g J", b - a, step, (heat + bh) * dt)); }
        }
        if (judge & JUDGE_BOUNDS) {
            for (int i = 0; i < n; ++i) {
                PolyFluid* c = f.nodes[i].getContent(); const double T = c->getTemperature();
                ctx.check(finite(T) && finite(c->getPressure()) && finite(c->getDensity()) && finite(c->getMass()), fmt("finite: node %d state is not finite", i));
                ctx.check(c->getMass() >= 0 && c->getDensity() >= -1e-12, fmt("bounds: node %d has mass %g kg, density %g", i, c->getMass(), c->getDensity()));
                double s = 0, sm = 0; for (int k = 0; k < nx; ++k) { const double x = c->getMassFraction(k); ctx.check(x >= 0 && x <= 1 + 1e-12, fmt("bounds: mass fraction %d of node %d is %g", k, i, x)); s += x; sm += c->getMoleFraction(k); if (!boundary && !bad) ctx.check(x >= xLo[k] - 1e-9 && x <= xHi[k] + 1e-9, fmt("hull: mass fraction %d of node %d is %.12g, nodes started between %.12g and %.12g", k, i, x, xLo[k], xHi[k])); }
                ctx.check(near(s, 1, 0, 1e-7) && near(sm, 1, 0, 1e-7), fmt("bounds: fractions of node %d sum to %.12g by mass, %.12g by mole", i, s, sm));
                if (!bad && !expand && !boundary) { const double lo = heated ? std::min(tLo, 255.0) : tLo, hi = heated ? std::max(tHi, 345.0) : tHi; ctx.check(T >= lo - 1e-6 && T <= hi + 1e-6, fmt("hull: node %d reached %.9g K, nothing started outside %.9g to %.9g K", i, T, lo, hi)); }
                if (!bad) ctx.check(T > 0, fmt("bounds: node %d is at %g K", i, T));
                if (!bad && T > 150 && T < 600 && c->getPressure() > 1e-6 && (step + i) % 5 == 0) { derivedState(*c, f.nodes[i].getFluidConfig(), nx, i, ctx); const PolyFluid& o = f.nodes[i].mOutflow; if (o.getFlowRate() > 1e-6 && o.getPressure() > 1e-6 && o.getTemperature() > 150 && o.getTemperature() < 600) derivedState(o, f.nodes[i].getFluidConfig(), nx, i, ctx); }
            }
            if (step == steps + tail - 100) for (int i = 0; i < n; ++i) pLate[i] = f.nodes[i].getContent()->getPressure();
            if (step == steps + tail && !bad) {
                bool pump = false; for (auto& l : f.fl) pump |= l.kind >= FluidNet::POT;
                if (!pump && f.dt <= 1.0) for (int i = 0; i < n; ++i) if (f.nodes[i].getVolume() > 0 && !p.geti("liquid")) {
                    PolyFluid* c = f.nodes[i].getContent(); if (!near(pLate[i], c->getPressure(), 2e-3, 1e-4)) { ctx.probe("still_settling"); continue; }
                    const double ideal = c->computePressure(c->getTemperature(), c->getMass() / f.nodes[i].getVolume());
                    ctx.check(near(ideal, c->getPressure(), 2e-2, 1e-3), fmt("settling: node %d is at %.9g kPa but its mass and temperature make %.9g kPa", i, c->getPressure(), ideal)); ++settled;
                }
            }
        }
        if (step % 5 == 0) ctx.log(fmt("%d %.12g %.12g", step, M1, pMax));
        uint64_t st = 1469598103934665603ULL; for (auto& l : f.fl) st = st * 1099511628211ULL ^ (l.l->mFlowRate > 1e-12 ? 2 : l.l->mFlowRate < -1e-12 ? 1 : 0); for (int i = 0; i < n; ++i) st = st * 31 ^ (od[i] ? 1 : f.nodes[i].getVolume() > 0 ? 2 : 3);
        ctx.state(st);
    }
    if (settled) ctx.probe("settled");
}

template <int J> void run(const Plan& p, Ctx& ctx) { runFluid(p, ctx, J); }
void genF(Rng& r, Plan& p, bool deep, int mask, double expansion, bool liq) {
    FluidGen g; g.kindsMask = mask; g.expansion = expansion; g.liquidOk = liq;
    const int steps = r.irange(20, deep ? 400 : 120); p.set("steps", steps);
    genFluid(r, p, g, deep); genFluidEvents(r, p, steps, r.irange(0, deep ? 40 : 16));
}
const int CLOSED = (1 << FluidNet::LEAK) - 1, OPEN = (1 << FluidNet::KINDS) - 1, PASSIVE = (1 << FluidNet::POT) - 1;
void genClosed(Rng& r, Plan& p, bool d) { genF(r, p, d, CLOSED, 0.5, true); }
void genOpen(Rng& r, Plan& p, bool d) { genF(r, p, d, OPEN, 0.5, true); }
void genClosedE(Rng& r, Plan& p, bool d) {
    genF(r, p, d, CLOSED, 0, true);
    if (p.get("liquid") == 0 && r.chance(0.04)) {     // Helium with 3% Nitrogen: the slopes of their specific heats cancel out
        p.set("nx", 2); p.set("gas0", 5); p.set("gasStep", 3); const double y = 0.0041 / (1.31741253e-1 + 0.0041) + (r.chance(0.5) ? 1 : -1) * r.logRange(1e-12, 1e-6);
        for (auto& o : p.ops) if (o.kind == "node") { o.a[4] = 1 - y; o.a[5] = y; }
    }
}
void genOpenE(Rng& r, Plan& p, bool d) { genF(r, p, d, OPEN, 0, true); }
void genPassive(Rng& r, Plan& p, bool d) { genF(r, p, d, PASSIVE, 0.3, true); }

const std::vector<std::string> REAL = {"Gunns solver, fluid nodes, flow orchestrator, PolyFluid and trace compounds", "capacitors, conductors, valves, check valves, pipes, heat exchangers, sensors, disconnects, fans, potentials, sources, flow controllers, leaks"};
const std::vector<std::string> STUB = {"health & status manager replaced by a recorder", "operators, malfunctions and boundaries scripted by the plan"};
const std::vector<std::string> ASSUME = {"A node asked for more fluid than it holds and receives in a step does not conserve, as documented; such steps are counted and not judged"};
Register f01({"F01", "distinct = a different network, initial state or event schedule; trivial = no flow anywhere", "flow direction of every link and overflow state of every node", {{"closed", 1, genClosed, run<JUDGE_MASS>}, {"open", 1, genOpen, run<JUDGE_MASS>}}, 40000, 2000000, REAL, STUB, ASSUME});
Register f02({"F02", "distinct = a different network, initial state or event schedule; trivial = no flow anywhere", "flow direction of every link and overflow state of every node", {{"closed", 1, genClosedE, run<JUDGE_HEAT>}, {"open", 1, genOpenE, run<JUDGE_HEAT>}}, 40000, 2000000, REAL, STUB, ASSUME});
Register f03({"F03", "distinct = a different network, initial state or event schedule; trivial = no trace compounds", "flow direction of every link and overflow state of every node", {{"closed", 1, genClosed, run<JUDGE_TC>}, {"open", 1, genOpen, run<JUDGE_TC>}}, 40000, 2000000, REAL, STUB, ASSUME});
Register f04({"F04", "distinct = a different network, initial state or event schedule; trivial = no flow anywhere", "flow direction of every link and overflow state of every node", {{"passive", 2, genPassive, run<JUDGE_BOUNDS>}, {"closed", 1, genClosed, run<JUDGE_BOUNDS>}, {"open", 1, genOpen, run<JUDGE_BOUNDS>}}, 8000, 300000, REAL, STUB, ASSUME});
} // namespace
void fluidRun(const Plan& p, Ctx& c) { runFluid(p, c, 0); }
void fluidGen(Rng& r, Plan& p, bool deep) { genOpen(r, p, deep); }
} // namespace dst
