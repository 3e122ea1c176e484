// F05: fluid components that pass fluid through (relief, regulator and pressure-reducing valves, hatches, 3-way valves,
// heat exchangers, orifices, pumps, turbines, heaters) against their declared laws, under operator and malfunction schedules.
#include "compnet.hh"
#include "aspects/fluid/conductor/GunnsFluidReliefValve.hh"
#include "aspects/fluid/conductor/GunnsFluidRegulatorValve.hh"
#include "aspects/fluid/conductor/GunnsFluidBalancedPrv.hh"
#include "aspects/fluid/conductor/GunnsFluidHatch.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayCheckValve.hh"
#include "aspects/fluid/conductor/GunnsFluidHxDynHtc.hh"
#include "aspects/fluid/conductor/GunnsFluidCondensingHx.hh"
#include "aspects/fluid/conductor/GunnsGasTurbine.hh"
#include "aspects/fluid/hi-fi/GunnsFluidHiFiValve.hh"
#include "aspects/fluid/source/GunnsLiquidDisplacementPump.hh"
#include "aspects/fluid/source/GunnsFluidHeater.hh"
#include "aspects/fluid/potential/GunnsLiquidCentrifugalPump.hh"

namespace dst {
namespace {

enum Kind { RELIEF, REGULATOR, BPRV, HATCH, W3, W3CHECK, HXDYN, CONDHX, ORIFICE, HIVALVE, GPUMP, LPUMP, CPUMP, TURBINE, HEATER, KINDS };
const char* KN[KINDS] = {"relief valve", "regulator valve", "balanced PRV", "hatch", "3-way valve", "3-way check valve", "dynamic heat exchanger", "condensing heat exchanger", "orifice", "hi-fi valve", "gas pump", "liquid pump", "centrifugal pump", "turbine", "heater"};
double clamp(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }

typedef CompNet::Comp Comp;

/// Flow through a conductance between two nodes from their pre-step contents and post-step pressures.
double passiveFlux(CompNet& f, const Comp& c, double conductivity, double dP, int a, int b) {
    const int i = c.l->mNodeMap[a], j = c.l->mNodeMap[b];
    const PolyFluid* x = i < f.n ? f.before[i].get() : &f.nodes[f.n].mContent; const PolyFluid* y = j < f.n ? f.before[j].get() : &f.nodes[f.n].mContent;
    return std::min(1e15, std::max(0.0, GunnsFluidUtils::computeAdmittance(conductivity, c.l->mMinLinearizationPotential, const_cast<PolyFluid*>(x), const_cast<PolyFluid*>(y)))) * dP;
}
double drop(CompNet& f, const Comp& c, int a, int b) { const int i = c.l->mNodeMap[a], j = c.l->mNodeMap[b]; return (i < f.n ? f.nodes[i].getPotential() : 0.0) - (j < f.n ? f.nodes[j].getPotential() : 0.0); }
double pre(CompNet& f, const Comp& c, int a) { return c.l->mPotentialVector[a]; (void)f; }

/// Nothing is made, lost or altered on the way through; the only heat is what the wall took.
void passThrough(CompNet& f, Comp& c, Ctx& ctx, double wall) {
    const CompNet::Net s = f.sum(c); const double tol = 1e-9 * s.gross + 1e-12;
    ctx.check(std::fabs(s.m) <= tol, fmt("mass: %s takes and gives amounts that differ by %.9g kg/s of %.9g", KN[c.kind], s.m, s.gross));
    for (int k = 0; k < f.nx; ++k) ctx.check(std::fabs(s.sp[k]) <= tol, fmt("species: %s creates %.9g kg/s of species %d out of %.9g kg/s", KN[c.kind], s.sp[k], k, s.gross));
    for (int k = 0; k < f.nt; ++k) ctx.check(std::fabs(s.tc[k]) <= 1e-6 * tol, fmt("trace: %s creates %.9g kg/s of compound %d out of %.9g kg/s", KN[c.kind], s.tc[k], k, s.gross));
    ctx.check(near(s.h, -wall, 1e-7, 1e-7 + 1e-9 * s.grossH + (s.gross < 1e-9 ? 1e-3 : 0.0)), fmt("heat: %s adds %.9g W to what passes, its wall gave %.9g W", KN[c.kind], s.h, -wall));
}
/// A node emptied through during the step sends out a mixture of its content and what came in.
bool mixed(CompNet& f, int i) {
    if (i >= f.n) return false; if (!near(f.nodes[i].mOutflow.getTemperature(), f.before[i]->getTemperature(), 1e-9, 1e-9)) return true;
    for (int k = 0; k < f.nx; ++k) if (!near(f.nodes[i].mOutflow.getMassFraction(k), f.before[i]->getMassFraction(k), 1e-9, 1e-12)) return true;
    return false;
}
void wallDirection(CompNet& f, Comp& c, Ctx& ctx, double wall, double tWall) {
    const double q = c.l->mFlowRate; if (std::fabs(q) < 1e-9) return; const int i = c.l->mNodeMap[q > 0 ? 0 : 1]; if (i >= f.n || mixed(f, i)) return;
    const double dT = f.before[i]->getTemperature() - tWall; ctx.check(wall * dT >= -1e-9 * (1 + std::fabs(wall)), fmt("wall: %s moves %.9g W from fluid at %.9g K to a wall at %.9g K", KN[c.kind], wall, f.before[i]->getTemperature(), tWall));
}
void passiveLaw(CompNet& f, Comp& c, Ctx& ctx, double conductivity) {
    const double dP = drop(f, c, 0, 1), q = passiveFlux(f, c, conductivity, dP, 0, 1), hi = std::max(1.0, std::max(std::fabs(c.l->mPotentialVector[0]), std::fabs(c.l->mPotentialVector[1])));
    ctx.check(near(c.l->mFlux, q, 1e-9, 1e-13 + 1e-12 * std::fabs(q / (dP ? dP : 1)) * hi), fmt("flow: %s moves %.12g kmol/s, conductivity %.9g and a drop of %.9g kPa make %.12g", KN[c.kind], c.l->mFlux, conductivity, dP, q));
    ctx.check(c.l->mFlux * dP >= 0, fmt("direction: %s flows %.9g kmol/s against a drop of %.9g kPa", KN[c.kind], c.l->mFlux, dP));
}

struct PsState { double pos, pos0, rate, leakFlow, leakG, G; bool dirty; double p0, p1, control; PsState() : pos(0), pos0(0), rate(1), leakFlow(0), leakG(0), G(0), dirty(false), p0(0), p1(0), control(0) {} };

template <class V, class C, class I> void addPressureValve(CompNet& f, Comp& c, bool relief) {
    auto st = std::make_shared<PsState>(); c.state = st;
    const double lo = c.u[1], crackD = c.u[2], fullD = c.u[3];
    // relief: reseat < crack < full open; regulator: full open < crack < reseat
    const double reseat = relief ? lo : lo + crackD + fullD, crack = relief ? lo + crackD : lo + fullD, full = relief ? lo + crackD + fullD : lo;
    auto* v = f.make<V>(c); int q[4]; for (int i = 0; i < 4; ++i) q[i] = c.ports[i]; if (q[2] == q[3]) q[3] = f.n; if (q[2] == q[3]) q[2] = f.node(0);
    v->initialize(C(c.name, &f.list, c.u[0], 0, c.u[6], c.u[9] > 0.5 ? 1.0 : 0.0, 0.05, 1e-6, reseat, crack, full, c.u[4], c.u[5], c.u[7], c.u[8]), I(false, 0, 0, false, 0, false, 0, 0, 300), f.links, q[0], q[1], q[2], q[3]);
    st->G = c.u[0]; st->rate = c.u[6];
    Comp* cp = &c; CompNet* fp = &f;
    c.pre = [=](Ctx&) {
        st->pos0 = v->mPosition; double p = v->mPotentialVector[2] - v->mPotentialVector[3]; if (v->mMalfPressureBiasFlag) p += v->mMalfPressureBiasValue;
        st->control = p - v->mSetPointPressureBias - (cp->u[7] + cp->u[8] * v->mPotentialVector[0]);
        if (!v->mMalfLeakThruFlag) { st->leakG = 0; st->leakFlow = 0; }
        else if (st->leakFlow != v->mMalfLeakThruValue) { st->leakFlow = v->mMalfLeakThruValue; const int i = v->mNodeMap[0], j = v->mNodeMap[1]; st->leakG = GunnsFluidUtils::predictConductivity(st->leakFlow, v->mMinLinearizationPotential, fp->before[i].get(), fp->before[j].get()); }
    };
    c.post = [=](Ctx& x) {
        const double p = st->control, s = c.u[5]; (void)s; double tgt;
        auto curve = [&](double start, double stop) {        // rises by pop to the pop position, then straight to full open
            const double m = cp->u[5] / (stop - start), pop = start + cp->u[4] / m;      // signed span works both ways
            const double d = relief ? p - start : start - p, dp = relief ? pop - start : start - pop;
            if (d <= 0) return 0.0; if (d <= dp) return std::fabs(m) * d;
            return cp->u[4] + (1 - cp->u[4]) * (p - pop) / (stop - pop);
        };
        const double open = curve(crack, full), close = curve(reseat, full);
        if (v->mMalfStuckFlag) x.check(v->mPosition == st->pos0, fmt("stuck: %s moved from %.9g to %.9g while stuck", KN[cp->kind], st->pos0, v->mPosition));
        else if (v->mMalfFailToFlag) x.check(v->mPosition == clamp(0, v->mMalfFailToValue, 1), fmt("fail-to: %s at %.9g, failed to %.9g", KN[cp->kind], v->mPosition, v->mMalfFailToValue));
        else {
            tgt = st->pos0 < open ? open : st->pos0 > close ? close : st->pos0; tgt = clamp(0, tgt, 1);
            const double d = st->rate * fp->dt, e = clamp(st->pos0 - d, tgt, st->pos0 + d), a = 1e-9;
            if (st->dirty) x.check(v->mPosition >= std::min(open, e) - a && v->mPosition <= std::max(close, e) + a && std::fabs(v->mPosition - st->pos0) <= d + a, fmt("position: %s went from %.9g to %.9g at %.9g kPa, outside its band %.9g to %.9g", KN[cp->kind], st->pos0, v->mPosition, p, open, close));
            else x.check(near(v->mPosition, e, 0, a), fmt("position: %s went from %.12g to %.12g at a control pressure of %.12g kPa, its opening and closing curves give %.12g and %.12g", KN[cp->kind], st->pos0, v->mPosition, p, open, close));
            if (std::fabs(v->mPosition - tgt) > a) st->dirty = true; else if (tgt == 0 || tgt == 1 || v->mState == GunnsFluidValve::TRANSITIONING) st->dirty = false;   // a travelling valve can overtake its curve inside the band
        }
        if (v->mMalfStuckFlag || v->mMalfFailToFlag) st->dirty = true;
        x.check(v->mPosition >= 0 && v->mPosition <= 1, fmt("position: %s is at %.9g", KN[cp->kind], v->mPosition));
        double G = std::max(st->G * v->mPosition, st->leakG); if (v->mMalfBlockageFlag) G *= 1 - v->mMalfBlockageValue;
        passiveLaw(*fp, *cp, x, G);
        if (!fp->over) { passThrough(*fp, *cp, x, v->mWallHeatFlux); wallDirection(*fp, *cp, x, v->mWallHeatFlux, v->mWallTemperature); }
        x.state((uint64_t)(cp->kind * 100 + (int)(v->mPosition * 5) * 10 + (int)v->mState));
        if (v->mPosition > 0 && v->mPosition < 1) x.probe("valve_modulating"); if (tgt > 0 && st->pos0 == v->mPosition && v->mPosition > 0) x.probe("valve_held_in_dead_band");
    };
    c.event = [=](int what, double val, Ctx& x) {
        switch (what) {
        case 0: v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); break;
        case 1: v->setMalfStuck(val > 0.3); x.fault("stuck_malfunction"); break;
        case 2: v->setMalfFailTo(val > 0.3, val); x.fault("fail_to_malfunction"); break;
        case 3: v->setMalfLeakThru(val > 0.2, std::fabs(val) * 1e-3); x.fault("leak_through_malfunction"); break;
        case 4: v->setMalfPressureBias(val > 0.1, (val - 0.4) * 40); x.fault("sensed_pressure_bias"); break;
        case 5: v->mSetPointPressureBias = val * 30; x.fault("set_point_change"); break;
        default: v->setWallTemperature(255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); break;
        }
    };
}

struct PrvState { double mBuf, set; bool cut; double p[3]; };
void addPrv(CompNet& f, Comp& c) {
    auto st = std::make_shared<PrvState>(); c.state = st; auto* v = f.make<GunnsFluidBalancedPrv>(c); Comp* cp = &c; CompNet* fp = &f;
    v->initialize(GunnsFluidBalancedPrvConfigData(c.name, &f.list, c.u[0]), GunnsFluidBalancedPrvInputData(false, 0, false, 0, c.u[1]), f.links, c.ports[0], c.ports[1], c.ports[2] == c.ports[1] || c.ports[2] == c.ports[0] ? f.n : c.ports[2]);
    st->cut = false;
    c.pre = [=](Ctx&) { st->mBuf = v->mInletMassBuffer; for (int i = 0; i < 3; ++i) st->p[i] = v->mPotentialVector[i]; };
    c.post = [=](Ctx& x) {
        if (st->p[1] > st->p[0]) st->cut = true; else if (st->p[1] < v->mPressureSetpoint) st->cut = false;
        const double mw0 = fp->before[v->mNodeMap[0]]->getMWeight(), p1 = fp->nodes[v->mNodeMap[1]].getPotential();
        const double preg = std::min(v->mPressureSetpoint + st->p[2] + (v->mMalfPressureBiasFlag ? v->mMalfPressureBiasValue : 0.0), st->p[0]);
        double G = st->cut || mw0 < 1e-6 ? 0.0 : 1 / mw0 / clamp((double)FLT_EPSILON, cp->u[0], 1 / (double)FLT_EPSILON) * (v->mMalfBlockageFlag ? 1 - v->mMalfBlockageValue : 1.0);
        const double e = std::max(0.0, (preg - (v->mNodeMap[1] < fp->n ? p1 : 0.0)) * G);
        x.check(near(v->mFlux, e, 1e-9, 1e-12 * (1 + G * (std::fabs(preg) + 1))), fmt("regulation: PRV delivers %.12g kmol/s, regulated pressure %.9g kPa over %.9g kPa makes %.12g", v->mFlux, preg, p1, e));
        if (fp->over) return;
        const CompNet::Net in = fp->at(*cp, 0), out = fp->at(*cp, 1); const double d = v->mInletMassBuffer - st->mBuf, owed = -(in.m + out.m) * fp->dt;
        if (v->mInletMassBuffer > 0) x.check(near(-d, owed, 1e-9, 1e-9 * (in.gross + out.gross) * fp->dt + 1e-13), fmt("buffer: PRV delivered %.12g kg more than it drew, its owed mass changed by %.12g kg", -owed, d));
        else { const bool ok = std::fabs(owed - st->mBuf) <= 1e-13 + 1e-9 * (in.gross + out.gross) * fp->dt; const std::string m = fmt("buffer: PRV drew %.12g kg it never delivered (net %.9g, buffer %.9g, inlet pressure %.9g -> %.9g kPa, drew %.9g kg/s, gave %.9g)", owed - st->mBuf, owed, st->mBuf, st->p[0], v->mPotentialVector[0], -in.m, out.m); if (!ok && (v->mPotentialVector[0] > 4 * st->p[0] || mixed(*fp, v->mNodeMap[0]))) x.finding("prv-overdraw", m); else x.check(ok, m); }
        if (v->mNodeMap[0] == v->mNodeMap[1]) return;
        x.check(out.m >= -1e-12, fmt("check: PRV flows backwards %.9g kg/s", out.m));
        for (int k = 0; k < fp->nx; ++k) { const double e0 = out.m * fp->before[v->mNodeMap[0]]->getMassFraction(k), e1 = out.m * fp->nodes[v->mNodeMap[0]].mOutflow.getMassFraction(k); x.check(near(out.sp[k], e0, 1e-9, 1e-12) || near(out.sp[k], e1, 1e-9, 1e-12), fmt("species: PRV delivers %.12g kg/s of species %d, its inlet holds %.12g", out.sp[k], k, e0)); }
        x.state((uint64_t)(cp->kind * 100 + st->cut * 2 + (v->mFlux > 0)));
    };
    c.event = [=](int what, double val, Ctx& x) {
        switch (what % 3) {
        case 0: v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); break;
        case 1: v->setMalfPressureBias(val > 0.1, (val - 0.4) * 40); x.fault("sensed_pressure_bias"); break;
        default: v->setPressureSetpoint(std::fabs(val) * 150); x.fault("set_point_change"); break;
        }
    };
}

struct ValveState { double leakFlow, leakG; ValveState() : leakFlow(0), leakG(0) {} };
void addHatch(CompNet& f, Comp& c) {
    auto st = std::make_shared<ValveState>(); c.state = st; auto* v = f.make<GunnsFluidHatch>(c); Comp* cp = &c; CompNet* fp = &f;
    v->initialize(GunnsFluidHatchConfigData(c.name, &f.list, c.u[0] * 100, 0, 0, 0, 0, 0.5 + 2 * c.u[1], 0.5 + 2 * c.u[2]), GunnsFluidHatchInputData(false, 0, c.u[3], false, 0, 300), f.links, c.ports[0], c.ports[1]);
    c.pre = [=](Ctx&) { if (!v->mMalfLeakThruFlag) st->leakFlow = st->leakG = 0; else if (st->leakFlow != v->mMalfLeakThruValue) { st->leakFlow = v->mMalfLeakThruValue; st->leakG = GunnsFluidUtils::predictConductivity(st->leakFlow, v->mMinLinearizationPotential, fp->before[v->mNodeMap[0]].get(), fp->before[v->mNodeMap[1]].get()); } };
    c.post = [=](Ctx& x) {
        double G = std::max(v->mMaxConductivity * v->mPosition, st->leakG); if (v->mMalfBlockageFlag) G *= 1 - v->mMalfBlockageValue;
        passiveLaw(*fp, *cp, x, G); if (fp->over || mixed(*fp, v->mNodeMap[0]) || mixed(*fp, v->mNodeMap[1])) return; passThrough(*fp, *cp, x, 0.0);
        const int a = v->mNodeMap[0], b = v->mNodeMap[1]; const PolyFluid &A = *fp->before[a], &B = *fp->before[b];
        const CompNet::Net n0 = fp->at(*cp, 0); const double q = v->mFlowRate; const PolyFluid& src = q > 0 ? A : B; bool diff = false;
        if (mixed(*fp, a) || mixed(*fp, b)) return;
        for (int k = 0; k < fp->nx; ++k) {
            const double j = -n0.sp[k] - q * src.getMassFraction(k), dx = A.getMoleFraction(k) - B.getMoleFraction(k); diff |= std::fabs(j) > 1e-12;
            x.check(j * dx >= -1e-13 * std::fabs(dx) - 1e-20, fmt("diffusion: hatch diffuses %.9g kg/s of species %d towards the side holding more of it (%.9g against %.9g)", j, k, A.getMoleFraction(k), B.getMoleFraction(k)));
        }
        const double dP = std::fabs(drop(*fp, *cp, 0, 1)), dT = A.getTemperature() - B.getTemperature();
        if (diff) { x.probe("diffusing"); x.check(G > 0 && dP < 0.0101 && std::fabs(dT) < 20.01, fmt("diffusion: hatch diffuses with conductivity %g across %.9g kPa and %.9g K", G, dP, dT)); }
        const double cond = fp->touch(*cp, 1).heat; x.check(near(cond, -fp->touch(*cp, 0).heat, 1e-12, 0), fmt("conduction: hatch takes %.9g W and gives %.9g W", -fp->touch(*cp, 0).heat, cond));
        x.check(cond * dT >= -1e-12 && (cond == 0 || G > 0), fmt("conduction: hatch moves %.9g W from %.9g K to %.9g K", cond, A.getTemperature(), B.getTemperature()));
        if (G > 1e-9 && std::fabs(dT) > 0.1) x.check(cond != 0, "conduction: an open hatch between different temperatures conducts nothing");
        x.state((uint64_t)(cp->kind * 100 + diff * 4 + (cond > 0) * 2 + (q > 0)));
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 3 == 0) { v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); } else if (what % 3 == 1) { v->setPosition(clamp(0, val, 1)); x.fault("valve_command"); } else { v->setMalfLeakThru(val > 0.2, std::fabs(val) * 1e-3); x.fault("leak_through_malfunction"); } };
}

struct W3State { double pos, pos0, dA, dB; bool stuck, fail; double failTo; W3State() : pos(0), pos0(0), dA(0), dB(0), stuck(false), fail(false), failTo(0) {} };
void add3Way(CompNet& f, Comp& c, bool check) {
    auto st = std::make_shared<W3State>(); c.state = st; Comp* cp = &c; CompNet* fp = &f; GunnsFluid3WayValve* v; GunnsFluid3WayCheckValve* k = 0;
    const bool posB = c.u[5] > 0.5; const double band = check ? 0.0 : c.u[6] > 0.5 ? c.u[7] * 0.9 : 0.0, minDp = 0.01 + c.u[8], openA = minDp + 0.1 + 20 * c.u[9], openB = minDp + 0.1 + 20 * c.u[10], rate = c.u[11]; int q[3] = {c.ports[0], c.ports[1], c.ports[2]};
    if (q[0] == q[1]) q[1] = f.node(q[0] + 1); if (q[2] == q[0] || q[2] == q[1]) for (int i = 0; i < f.n; ++i) if (i != q[0] && i != q[1]) q[2] = i;
    if (q[2] == q[0] || q[2] == q[1]) q[2] = f.n;
    const size_t first = f.links.size();
    if (check) { v = k = f.make<GunnsFluid3WayCheckValve>(c); k->initialize(GunnsFluid3WayCheckValveConfigData(c.name, &f.list, posB, c.u[0], c.u[1], 0, 0, c.u[2] > 0.5, c.u[2] > 0.5, 0.05, 0.05, 1e-6, 1e-6, rate, openA, openB, minDp), GunnsFluid3WayCheckValveInputData(c.u[3], 300, 300), f.links, q[0], q[1], q[2]); }
    else { v = f.make<GunnsFluid3WayValve>(c); v->initialize(GunnsFluid3WayValveConfigData(c.name, &f.list, posB, c.u[0], c.u[1], 0, 0, c.u[2] > 0.5, c.u[2] > 0.5, 0.05, 0.05, 1e-6, 1e-6, band), GunnsFluid3WayValveInputData(c.u[3], 300, 300), f.links, q[0], q[1], q[2]); }
    (void)first;
    c.pre = [=](Ctx&) { st->pos0 = v->mPosition; st->dA = v->mPathA.getPotentialDrop(); st->dB = v->mPathB.getPotentialDrop(); };
    c.post = [=](Ctx& x) {
        double pos = st->pos0;
        if (check) {
            if (st->stuck) {} else if (st->fail) pos = clamp(0, st->failTo, 1);
            else if (!(st->dA < 0 && st->dB < 0)) {
                const double d = st->dA - st->dB; double t = 0.5;      // towards A when A pushes harder
                if (std::fabs(d) >= minDp) t = d > 0 ? 0.5 + 0.5 * clamp(0, (d - minDp) / (openA - minDp), 1) : 0.5 - 0.5 * clamp(0, (-d - minDp) / (openB - minDp), 1);
                if (posB) t = 1 - t; pos = clamp(st->pos0 - rate * fp->dt, t, st->pos0 + rate * fp->dt);
            }
            x.check(near(v->mPosition, pos, 0, 1e-9), fmt("position: 3-way check valve went from %.12g to %.12g with drops %.12g and %.12g kPa, expected %.12g", st->pos0, v->mPosition, st->dA, st->dB, pos));
        } else pos = v->mPosition;
        const double a = posB ? 1 - pos : pos, w = 0.5 - 0.5 * band; double pa, pb;
        if (band > 0) { pa = std::max(0.0, (a - (1 - w)) / w); pb = std::max(0.0, (w - a) / w); } else { pa = a; pb = 1 - a; }
        GunnsFluidValve* path[2] = {&v->mPathA, &v->mPathB}; const double want[2] = {cp->u[0] * pa, cp->u[1] * pb}; double heat = 0;
        for (int s = 0; s < 2; ++s) {
            const double dP = drop(*fp, *cp, s, 2), e = passiveFlux(*fp, *cp, want[s], dP, s, 2);
            x.check(near(path[s]->mFlux, e, 1e-8, 1e-13 + 1e-11 * std::fabs(dP ? e / dP : 0) * 1e3), fmt("path: %s position %.9g moves %.12g kmol/s through path %d, expected %.12g", KN[cp->kind], pos, path[s]->mFlux, s, e));
            x.check(path[s]->mFlux * dP >= 0, fmt("direction: 3-way path %d flows against its drop", s)); heat += path[s]->mWallHeatFlux;
        }
        x.check(pa * pb == 0 || band == 0, "path: both paths open inside the non-mixing band");
        (void)heat; x.state((uint64_t)(cp->kind * 100 + (int)(pos * 9)));
    };
    c.event = [=](int what, double val, Ctx& x) {
        if (!check) { v->setPosition(clamp(0, val, 1)); x.fault("valve_command"); return; }
        if (what % 2) { st->stuck = val > 0.3; k->setMalfStuck(st->stuck); x.fault("stuck_malfunction"); } else { st->fail = val > 0.3; st->failTo = val; k->setMalfFailTo(st->fail, val); x.fault("fail_to_malfunction"); }
    };
}

void addHx(CompNet& f, Comp& c) {
    auto* v = f.make<GunnsFluidHxDynHtc>(c); Comp* cp = &c; CompNet* fp = &f; const int segs = 1 + (int)(c.u[1] * 4);
    const double k0 = 20 * c.u[2], k1 = 200 * c.u[3], ex = 0.2 + c.u[4], lim = 20 + 200 * c.u[5];
    v->initialize(GunnsFluidHxDynHtcConfigData(c.name, &f.list, c.u[0], 0, segs, k0, k1, ex, lim), GunnsFluidHxDynHtcInputData(false, 0, 255 + 90 * c.u[6]), f.links, c.ports[0], c.ports[1]);
    c.post = [=](Ctx& x) {
        double G = cp->u[0]; if (v->mMalfBlockageFlag) G *= 1 - v->mMalfBlockageValue; passiveLaw(*fp, *cp, x, G); if (fp->over) return;
        double gain = 0, lo = 1e9, hi = 0; for (int s = 0; s < segs; ++s) { gain += v->mSegEnergyGain[s]; lo = std::min(lo, v->mSegTemperature[s]); hi = std::max(hi, v->mSegTemperature[s]); }
        passThrough(*fp, *cp, x, gain);
        const double q = v->mFlowRate; if (std::fabs(q) < 1e-9) return; const int i = v->mNodeMap[q > 0 ? 0 : 1]; if (mixed(*fp, i)) return; const double t = fp->before[i]->getTemperature(), o = v->mInternalFluid->getTemperature();
        x.check(o >= std::min(lo, t) - 1e-6 && o <= std::max(hi, t) + 1e-6, fmt("exit: heat exchanger turns %.9g K into %.9g K with segments between %.9g and %.9g K", t, o, lo, hi));
        const double h = (k0 + k1 * std::pow(std::min(10.0, std::fabs(q)), ex)) / segs;   // documented: the limit applies to the degraded coefficient
        if (std::fabs(q) > 2e-7) for (int s = 0; s < segs; ++s) { double dg = v->mMalfSegDegradeFlag[s] ? v->mMalfSegDegradeValue[s] : v->mMalfHxDegradeFlag ? v->mMalfHxDegradeValue : 1.0; const double want = std::min(lim / segs, h * clamp(0, dg, 1)); x.check(near(v->mSegHtc[s], want, 1e-9, 1e-12), fmt("htc: segment %d has %.9g W/K, flow %.9g kg/s and degradation %.3g make %.9g", s, v->mSegHtc[s], q, dg, want)); }
        x.state((uint64_t)(cp->kind * 100 + (gain > 0) * 2 + (q > 0)));
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 4 == 0) { v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); } else if (what % 4 == 1) { v->setMalfHxDegrade(val > 0.3, clamp(0, val, 1)); x.fault("hx_disturbance"); } else if (what % 4 == 2) { v->setMalfSegDegrade((int)(std::fabs(val) * 7) % segs, val > 0.3, clamp(0, val, 1)); x.fault("hx_disturbance"); } else { for (int s = 0; s < segs; ++s) v->setSegTemperature(s, 255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); } };
}

void addCondHx(CompNet& f, Comp& c) {
    auto* v = f.make<GunnsFluidCondensingHx>(c); Comp* cp = &c; CompNet* fp = &f; const int segs = 1 + (int)(c.u[1] * 4), w = f.idx(FluidProperties::GUNNS_H2O);
    v->initialize(GunnsFluidCondensingHxConfigData(c.name, &f.list, c.u[0], segs, 20 * c.u[2], 400 * c.u[3], 0.2 + c.u[4], 20 + 400 * c.u[5]), GunnsFluidCondensingHxInputData(false, 0, 274 + 60 * c.u[6]), f.links, c.ports[0], c.ports[1]);
    c.post = [=](Ctx& x) {
        if (fp->over) return; const CompNet::Net s = fp->sum(*cp); const double q = v->mFlowRate, r = v->mCondensationRate, tol = 1e-9 * s.gross + 1e-12;
        const double avail = q > 0 ? q * fp->before[v->mNodeMap[0]]->getMassFraction(w) : 0.0;
        x.check(finite(r) && r >= -tol && r <= avail + tol, fmt("condensation: %.9g kg/s condensed from a flow carrying %.9g kg/s of vapor", r, avail));
        x.check(std::fabs(s.m + r) <= tol, fmt("mass: condensing heat exchanger loses %.12g kg/s but condenses %.12g kg/s", -s.m, r));
        for (int k = 0; k < fp->nx; ++k) x.check(std::fabs(s.sp[k] + (k == w ? r : 0.0)) <= tol, fmt("species: condensing heat exchanger loses %.12g kg/s of species %d but condenses %.12g kg/s", -s.sp[k], k, k == w ? r : 0.0));
        x.check(near(v->mTotalHeat, v->mSensibleHeat + v->mLatentHeat, 1e-12, 1e-12), "heat: total is not sensible plus latent");
        if (q <= 0) { x.check(r == 0 && v->mTotalHeat == 0, "condensation: in reverse flow"); passThrough(*fp, *cp, x, 0.0); }
        else if (q > 1e-9 && !mixed(*fp, v->mNodeMap[0])) { double lo = 1e9, hi = 0; for (int i = 0; i < segs; ++i) { lo = std::min(lo, v->mSegmentTemperature[i]); hi = std::max(hi, v->mSegmentTemperature[i]); }
            const double t = fp->before[v->mNodeMap[0]]->getTemperature(), o = v->mInternalFluid->getTemperature(); const PolyFluid& A = *fp->before[v->mNodeMap[0]]; const bool dry = t > A.getProperties(FluidProperties::GUNNS_H2O)->getSaturationTemperature(std::max(1e-3, A.getPartialPressure(FluidProperties::GUNNS_H2O))); const double slack = 0.5 + 0.3 * std::max(std::fabs(t - lo), std::fabs(hi - t)); if (dry && r == 0) x.check(o >= std::min(lo, t) - slack && o <= std::max(hi, t) + slack, fmt("exit: condensing heat exchanger turns %.9g K into %.9g K with segments between %.9g and %.9g K", t, o, lo, hi));
            if (r == 0) {
                const PolyFluid& D = *fp->before[v->mNodeMap[0]]; const double dew = D.getProperties(FluidProperties::GUNNS_H2O)->getSaturationTemperature(D.getPartialPressure(FluidProperties::GUNNS_H2O)); const bool ok = near(s.h, -v->mTotalHeat, 0.25, 1e-6 * (1 + s.grossH)) && s.h * v->mTotalHeat <= 1e-6 * (1 + s.grossH); const std::string m = fmt("heat: fluid gains %.9g W, segments of the condensing heat exchanger take %.9g W", s.h, v->mTotalHeat);
                if (fp->has(FluidProperties::GUNNS_H2) || !dry) {} else if (!ok && dew < 0.9 * D.getTemperature()) x.finding("condhx-dry-heat", m); else x.check(ok, m);
            } else x.probe("condensing"); }
        x.state((uint64_t)(cp->kind * 100 + (r > 0) * 2 + (q > 0)));
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 3 == 0) { v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); } else if (what % 3 == 1) { v->setMalfHxDegrade(val > 0.3, clamp(0, val, 1)); x.fault("hx_disturbance"); } else { for (int s = 0; s < segs; ++s) v->mSegmentTemperature[s] = 274 + 60 * clamp(0, val, 1); x.fault("wall_temperature_step"); } };
}

struct HfState { double p[2], w, leakG; double leakArea, leakRate, prevRatio; HfState() : w(0), leakG(0), leakArea(0), leakRate(0), prevRatio(0) { p[0] = p[1] = 0; } };
void addHiFi(CompNet& f, Comp& c, bool valve) {
    auto st = std::make_shared<HfState>(); c.state = st; Comp* cp = &c; CompNet* fp = &f; GunnsFluidHiFiOrifice* v; GunnsFluidHiFiValve* g = 0; const double d = 1e-3 + 0.02 * c.u[1], cd = 0.2 + 0.7 * c.u[2], re = 4000 * c.u[3], tune = 0.5 + c.u[4], area = M_PI / 4 * d * d;
    if (valve) { v = g = f.make<GunnsFluidHiFiValve>(c); g->initialize(GunnsFluidHiFiValveConfigData(c.name, &f.list, GunnsFluidHiFiOrificeConfigData::DISCHARGE_COEFF, cd, d, re, 0, tune), GunnsFluidHiFiValveInputData(false, 0, c.u[5], false, 0), f.links, c.ports[0], c.ports[1]); }
    else { v = f.make<GunnsFluidHiFiOrifice>(c); v->initialize(GunnsFluidHiFiOrificeConfigData(c.name, &f.list, GunnsFluidHiFiOrificeConfigData::DISCHARGE_COEFF, cd, d, re, 0, tune), GunnsFluidHiFiOrificeInputData(false, 0), f.links, c.ports[0], c.ports[1]); }
    c.pre = [=](Ctx&) { st->p[0] = v->mPotentialVector[0]; st->p[1] = v->mPotentialVector[1]; st->w = v->mFlowRate; };
    c.post = [=](Ctx& x) {
        const int s = st->p[1] > st->p[0] ? 1 : 0, i = v->mNodeMap[s], j = v->mNodeMap[1 - s]; const PolyFluid &A = *fp->before[i], &B = *fp->before[j];
        const double rho = A.getDensity(), Re = std::fabs(st->w) / rho / area * d * rho / std::max(A.getViscosity(), DBL_EPSILON); double C = cd * std::sqrt(std::min(re, Re) / std::max(re, DBL_EPSILON)); if (C < DBL_EPSILON) C = cd;
        const double p1 = std::max(B.getPressure(), 0.0) * 1000, p0 = 1000 * std::max(A.getPressure(), B.getPressure() + v->mMinLinearizationPotential); double flux;
        if (A.getPhase() == FluidProperties::GAS) {
            const double k = A.getAdiabaticIndex(), crit = std::pow(2 / (k + 1), k / (k - 1)), r = p1 / p0;
            if (r < crit) { flux = std::sqrt(k * rho * p0 * std::pow(2 / (k + 1), (k + 1) / (k - 1))); x.probe("choked"); } else flux = std::sqrt(2 * rho * p0 * k / (k - 1) * (std::pow(r, 2 / k) - std::pow(r, (k + 1) / k)));
        } else flux = std::sqrt((A.getDensity() + B.getDensity()) * (p0 - p1));
        double ar = area; if (v->mMalfBlockageFlag) ar *= 1 - v->mMalfBlockageValue; if (valve) ar *= g->mPosition;
        const double G = C * flux * 1000 / (p0 - p1) * ar * tune / (0.5 * (A.getMWeight() + B.getMWeight())), dP = drop(*fp, *cp, 0, 1), e = std::min(G, 1e15) * dP;
        const bool lawful = A.getPressure() > B.getPressure() + 1e-6 && B.getPressure() >= 0 && st->p[s] > st->p[1 - s] + 1e-6;
        if (!lawful) {} else if (valve && g->mMalfLeakThruFlag) { x.check(std::fabs(v->mFlux) >= std::fabs(e) * (1 - 1e-7) - 1e-11 - 1e-10 * G, fmt("leak: leaking valve moves %.9g kmol/s, less than the %.9g it would without the leak", v->mFlux, e)); if (g->mPosition >= 1 && !v->mMalfBlockageFlag) x.check(std::fabs(v->mFlux) <= std::fabs(e) * (1 + 1e-7) + 1e-11 + 1e-10 * G, "leak: leak opens the valve beyond its throat"); }
        else x.check(near(v->mFlux, e, 1e-6, 1e-11 + 1e-10 * G), fmt("flow: %s moves %.12g kmol/s, the %s law with Cd %.6g makes %.12g", KN[cp->kind], v->mFlux, A.getPhase() == FluidProperties::GAS ? "gas" : "liquid", C, e));
        x.check(v->mFlux * dP >= 0, fmt("direction: %s flows against its drop", KN[cp->kind]));
        if (!fp->over) passThrough(*fp, *cp, x, 0.0);
        x.state((uint64_t)(cp->kind * 100 + (Re < re) * 4 + (p1 / p0 < 0.5) * 2 + s));
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 3 == 0 || !valve) { v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); } else if (what % 3 == 1) { g->setPosition(clamp(0, val, 1)); x.fault("valve_command"); } else { g->setMalfLeakThru(val > 0.2, std::fabs(val) * 1e-4); x.fault("leak_through_malfunction"); } };
}

struct PumpState { double maxDt = 0; double speed; int quiet; int src; double full, dur, partial, frac; double mw; PumpState() : speed(0), quiet(0), src(-1), full(0), dur(0), partial(0), frac(0), mw(0) {} };
void cavitationLaw(GunnsPumpCavitation& cav, PumpState& st, CompNet& f, Ctx& x, const char* nm) {
    const double fr = cav.mCavitationFraction; x.check(fr >= 0 && fr <= 1, fmt("cavitation: %s fraction %.9g", nm, fr));
    if (cav.mMalfFullCavitationFlag) { x.check(fr >= st.frac - 1e-12, fmt("cavitation: %s recovers from %.9g to %.9g while fully cavitating", nm, st.frac, fr)); st.full += f.dt; st.maxDt = std::max(st.maxDt, f.dt); if (st.full > 1.5 * st.dur + 20 * st.maxDt) { x.check(fr == 1, fmt("cavitation: %s reached only %.9g after %.9g s of a %.9g s onset", nm, fr, st.full, st.dur)); x.probe("fully_cavitated"); } }
    else { x.check(fr <= st.frac + 1e-12, fmt("cavitation: %s goes from %.9g to %.9g without cause", nm, st.frac, fr)); st.full = 0; }
    st.frac = fr;
}
void addPump(CompNet& f, Comp& c, bool liquid) {
    auto st = std::make_shared<PumpState>(); c.state = st; Comp* cp = &c; CompNet* fp = &f; const double cyc = 1e-4 * c.u[1] + 1e-6, ratio = 0.5 + 2 * c.u[2]; const bool chk = c.u[3] > 0.5, wall = c.u[4] > 0.5;
    GunnsGasDisplacementPump* v; GunnsLiquidDisplacementPump* g = 0; st->speed = 2000 * c.u[5];
    if (liquid) { v = g = f.make<GunnsLiquidDisplacementPump>(c); g->initialize(GunnsLiquidDisplacementPumpConfigData(c.name, &f.list, cyc, ratio, wall, 0.05, 1e-6, chk, f.types[0], 1.0, 0.0), GunnsLiquidDisplacementPumpInputData(false, 0, 0, st->speed, 300, false), f.links, c.ports[0], c.ports[1]); }
    else { v = f.make<GunnsGasDisplacementPump>(c); v->initialize(GunnsGasDisplacementPumpConfigData(c.name, &f.list, cyc, ratio, wall, 0.05, 1e-6, chk), GunnsGasDisplacementPumpInputData(false, 0, 0, st->speed, 300), f.links, c.ports[0], c.ports[1]); }
    c.post = [=](Ctx& x) {
        const double speed = st->speed / ratio; double vol = speed * cyc / 60; if (chk && vol <= 0) vol = 0; if (g) { cavitationLaw(g->mCavitation, *st, *fp, x, KN[cp->kind]); vol *= 1 - g->mCavitation.mCavitationFraction; }
        const int s = vol >= 0 ? 0 : 1; const PolyFluid& A = *fp->before[v->mNodeMap[s]]; double w = vol * A.getDensity(); if (v->mMalfBlockageFlag) w *= 1 - v->mMalfBlockageValue;
        // the pump converts to moles with the mixture it moved last
        const bool same = st->src == s && fp->step > 1 && !mixed(*fp, v->mNodeMap[s]) && near(st->mw, A.getMWeight(), 1e-9, 0);
        if (!fp->over && vol != 0) { if (same) x.check(near(v->mFlowRate, w, 1e-7, 1e-13), fmt("displacement: %s moves %.12g kg/s, its speed and inlet density make %.12g", KN[cp->kind], v->mFlowRate, w)); else x.check(v->mFlowRate * w >= 0 && std::fabs(v->mFlowRate) <= 30 * std::fabs(w) + 1e-12, fmt("displacement: %s moves %.12g kg/s, its speed and inlet density make %.12g", KN[cp->kind], v->mFlowRate, w)); }
        if (vol == 0) x.check(v->mFlux == 0, fmt("displacement: %s moves %.9g kmol/s with no displacement", KN[cp->kind], v->mFlux));
        st->src = v->mFlowRate == 0 || mixed(*fp, v->mNodeMap[s]) ? -1 : s; st->mw = v->mInternalFluid->getMWeight();
        if (!fp->over) { passThrough(*fp, *cp, x, v->mWallHeatFlux); wallDirection(*fp, *cp, x, v->mWallHeatFlux, v->mWallTemperature); }
        x.state((uint64_t)(cp->kind * 100 + (vol > 0) * 2 + (vol < 0)));
    };
    c.event = [=](int what, double val, Ctx& x) {
        switch (what % 5) {
        case 0: v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); break;
        case 1: case 2: st->speed = 2000 * (chk || val > 0.2 ? std::fabs(val) : val); v->setMotorSpeed(st->speed); x.fault("pump_speed_step"); break;
        case 3: v->setWallTemperature(255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); break;
        default: if (g) { st->dur = 0.2 + std::fabs(val); st->full = 0; g->mCavitation.setMalfFullCavitation(val > 0.1, st->dur); x.fault("cavitation_malfunction"); } break;
        }
    };
}
void addCentrifugal(CompNet& f, Comp& c) {
    auto st = std::make_shared<PumpState>(); c.state = st; Comp* cp = &c; CompNet* fp = &f; auto* v = f.make<GunnsLiquidCentrifugalPump>(c); const bool chk = c.u[3] > 0.5, wall = c.u[4] > 0.5;
    v->initialize(GunnsLiquidCentrifugalPumpConfigData(c.name, &f.list, c.u[0] * 1e-2, 0, 1000, 10000, 100, 0, 0, -1e4, 0, 0, 0.5, 0.02, 0.5, 1.0, wall, 0.05, 1e-6, chk, f.types[0], 1.0, 0.0), GunnsLiquidCentrifugalPumpInputData(false, 0, 0, 10000 * c.u[5], 300, false), f.links, c.ports[0], c.ports[1]);
    c.post = [=](Ctx& x) {
        cavitationLaw(v->mCavitation, *st, *fp, x, KN[cp->kind]); double G = cp->u[0] * 1e-2 * v->mCheckValvePosition; if (v->mMalfBlockageFlag) G *= 1 - v->mMalfBlockageValue;
        if (st->frac == 1) x.check(v->mSourcePressure == 0, fmt("cavitation: fully cavitating pump still makes %.9g kPa", v->mSourcePressure));
        if (chk) x.check(v->mFlowRate >= -1e-9 || v->mCheckValvePosition == 1, "check: closed check valve passes reverse flow");
        if (!fp->over) { passThrough(*fp, *cp, x, v->mWallHeatFlux); wallDirection(*fp, *cp, x, v->mWallHeatFlux, v->mWallTemperature); }
        x.state((uint64_t)(cp->kind * 100 + (v->mFlux > 0) * 2 + (v->mCheckValvePosition > 0)));
    };
    c.event = [=](int what, double val, Ctx& x) {
        switch (what % 4) {
        case 0: v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); break;
        case 1: v->setMotorSpeed(std::fabs(val) * 10000); x.fault("pump_speed_step"); break;
        case 2: v->setWallTemperature(255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); break;
        default: st->dur = 0.2 + std::fabs(val); st->full = 0; v->mCavitation.setMalfFullCavitation(val > 0.1, st->dur); x.fault("cavitation_malfunction"); break;
        }
    };
}
void addTurbine(CompNet& f, Comp& c) {
    Comp* cp = &c; CompNet* fp = &f; auto* v = f.make<GunnsGasTurbine>(c);
    v->initialize(GunnsGasTurbineConfigData(c.name, &f.list, c.u[0], 0, 294, 101, 0.05 + c.u[1], 0.1 + c.u[2], 10, 10, 0.5, 0.5, 0.1, 0.3, 0, 0, 0, 0, 0.1, 0.3, 0, 0, 0, 0, 1.1, 1.1, 4, 4, 1000, 10000, 0.5, 1.0, c.u[4] > 0.5, 0.05, 1e-6), GunnsGasTurbineInputData(false, 0, 10000 * c.u[5], 300), f.links, c.ports[0], c.ports[1]);
    c.post = [=](Ctx& x) {
        x.check(v->mFlux * drop(*fp, *cp, 0, 1) >= 0, "direction: turbine flows against its pressure drop"); x.check(v->mEfficiency >= 0 && v->mEfficiency <= 1 && v->mImpellerPower <= 1e-9 , fmt("power: turbine efficiency %.9g, power %.9g W", v->mEfficiency, v->mImpellerPower));
        if (!fp->over) { passThrough(*fp, *cp, x, v->mWallHeatFlux); wallDirection(*fp, *cp, x, v->mWallHeatFlux, v->mWallTemperature); }
        x.state((uint64_t)(cp->kind * 100 + (v->mFlux > 0) * 2 + (v->mEfficiency > 0)));
    };
    c.event = [=](int what, double val, Ctx& x) { switch (what % 3) { case 0: v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); break; case 1: v->setMotorSpeed(std::fabs(val) * 10000); x.fault("pump_speed_step"); break; default: v->setWallTemperature(255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); } };
}
void addHeater(CompNet& f, Comp& c) {
    Comp* cp = &c; CompNet* fp = &f; auto* v = f.make<GunnsFluidHeater>(c); const double eff = 0.1 + 0.9 * c.u[1]; auto pw = std::make_shared<double>(100 * c.u[2]); c.state = pw;
    v->initialize(GunnsFluidHeaterConfigData(c.name, &f.list, eff), GunnsFluidHeaterInputData(false, 0, *pw), f.links, c.u[3] > 0.5 ? f.n : c.ports[0], c.ports[1]);
    c.post = [=](Ctx& x) {
        const double e = *pw * eff * (v->mMalfBlockageFlag ? 1 - v->mMalfBlockageValue : 1.0), h = fp->touch(*cp, 1).heat; x.check(near(h, e, 1e-9, 1e-12), fmt("heater: delivers %.9g W of %.9g W", h, e));
        const CompNet::Net s = fp->sum(*cp); x.check(s.gross == 0 && std::fabs(s.h) <= 1e-9 * (1 + s.grossH), "heater: moves fluid or makes heat from nothing");
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 2) { v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); } else { *pw = 100 * std::fabs(val); v->setHeaterPower(*pw); x.fault("heater_command"); } };
}

/// op comp: {kind, p0, p1, p2, p3, u0..u11}
void addComp(CompNet& f, const Op& o, int index, bool liquid) {
    int kind = std::abs(o.i(0)) % KINDS; const bool liquidOnly = kind == LPUMP || kind == CPUMP, gasOnly = kind == HATCH || kind == CONDHX || kind == GPUMP || kind == TURBINE || kind == BPRV;
    if ((liquid && gasOnly) || (!liquid && liquidOnly) || (kind == CONDHX && !f.has(FluidProperties::GUNNS_H2O))) return;
    f.comps.emplace_back(new Comp); Comp& c = *f.comps.back(); c.kind = kind; c.name = fmt("c%d", index); for (int i = 0; i < 4; ++i) c.ports.push_back(f.node(std::abs(o.i(1 + i)))); for (int i = 0; i < 12; ++i) c.u[i] = o.d(5 + i);
    if (c.ports[0] == c.ports[1]) c.ports[1] = f.node(c.ports[0] + 1);
    c.u[0] = clamp(1e-8, c.u[0], 1.0);
    switch (kind) {
    case RELIEF: case REGULATOR: c.u[1] = clamp(1, c.u[1], 500); c.u[2] = clamp(0.05, c.u[2], 300); c.u[3] = clamp(0.05, c.u[3], 300); c.u[4] = clamp(0.01, c.u[4], 0.95); c.u[5] = clamp(1, c.u[5], 20); c.u[6] = clamp(1e-3, c.u[6], 1000);
        if (kind == RELIEF) addPressureValve<GunnsFluidReliefValve, GunnsFluidReliefValveConfigData, GunnsFluidReliefValveInputData>(f, c, true); else addPressureValve<GunnsFluidRegulatorValve, GunnsFluidRegulatorValveConfigData, GunnsFluidRegulatorValveInputData>(f, c, false); break;
    case BPRV: c.u[0] = clamp(1, c.u[0] * 1e5, 1e5); c.u[1] = clamp(0, c.u[1], 200); addPrv(f, c); break;
    case HATCH: for (int i = 1; i < 4; ++i) c.u[i] = clamp(0, c.u[i], 1); addHatch(f, c); break;
    case W3: case W3CHECK: c.u[1] = clamp(1e-8, c.u[1], 1); c.u[3] = clamp(0, c.u[3], 1); for (int i = 7; i < 11; ++i) c.u[i] = clamp(0, c.u[i], 1); c.u[11] = clamp(0.01, c.u[11], 100); add3Way(f, c, kind == W3CHECK); break;
    default: for (int i = 1; i < 12; ++i) c.u[i] = clamp(0, c.u[i], 1);
        if (kind == HXDYN) addHx(f, c); else if (kind == CONDHX) addCondHx(f, c); else if (kind == ORIFICE || kind == HIVALVE) addHiFi(f, c, kind == HIVALVE);
        else if (kind == GPUMP || kind == LPUMP) addPump(f, c, kind == LPUMP); else if (kind == CPUMP) addCentrifugal(f, c); else if (kind == TURBINE) addTurbine(f, c); else addHeater(f, c);
    }
}

void run(const Plan& p, Ctx& ctx) {
    HsTap hs; CompNet f; const bool liquid = p.get("liquid") != 0; using FP = FluidProperties;
    const FP::FluidType gases[7] = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2O, FP::GUNNS_CO2, FP::GUNNS_H2, FP::GUNNS_HE, FP::GUNNS_AR}, liqs[3] = {FP::GUNNS_WATER, FP::GUNNS_PG40, FP::GUNNS_HFE7100};
    std::vector<FP::FluidType> ty; if (liquid) ty.push_back(liqs[std::abs(p.geti("gas0")) % 3]); else for (int i = 0, m = std::min(std::max(p.geti("nx", 3), 1), 5); i < m; ++i) ty.push_back(gases[(i + std::abs(p.geti("gas0"))) % 7]);
    std::vector<ChemicalCompound::Type> tct; const ChemicalCompound::Type T3[3] = {ChemicalCompound::CH2O, ChemicalCompound::C2H6O, ChemicalCompound::NH3}; for (int i = 0; i < std::min(3, std::max(0, p.geti("nt"))); ++i) tct.push_back(T3[i]);
    f.begin(p, ty, tct); int k = 0; for (auto& o : p.ops) { if (o.kind == "wire") f.conductor(fmt("w%d", k++), f.node(std::abs(o.i(0))), f.node(std::abs(o.i(1))), clamp(0, o.d(2), 1)); if (o.kind == "comp") addComp(f, o, k++, liquid); }
    f.finish(p); const long steps = std::min(1500, p.geti("steps", 60));
    for (f.step = 1; f.step <= steps; ++f.step) {
        for (auto& o : p.ops) if (o.kind == "ev" && o.i(0) == f.step) { if (o.i(2) == 9) { f.dt = clamp(1e-3, std::fabs(o.d(3)), 2); ctx.fault("time_step_change"); } else if (!f.comps.empty()) { Comp& c = *f.comps[std::abs(o.i(1)) % f.comps.size()]; if (c.event) c.event(std::abs(o.i(2)), o.d(3), ctx); } }
        if (!f.advance(hs, ctx)) break;
        for (auto& c : f.comps) { for (int i = 0; i <= f.n; ++i) ctx.check(finite(f.rec.t[c->id][i].in) && finite(f.rec.t[c->id][i].inH), "finite: a component moves a flow that is not a number"); if (!f.over) f.checkSchedule(*c, ctx); if (c->post) c->post(ctx); }
        // links inside components (3-way paths) are recorded together
        if (!f.over) { Comp c; c.id = 0; double wall = 0; bool any = false; for (auto& x : f.comps) if (x->kind == W3 || x->kind == W3CHECK) { auto* v = static_cast<GunnsFluid3WayValve*>(x->l); wall += v->mPathA.mWallHeatFlux + v->mPathB.mWallHeatFlux; any = true; } if (any) { c.kind = W3; passThrough(f, c, ctx, wall); } }
        if (f.step % 10 == 0) { double s = 0; for (int i = 0; i < f.n; ++i) s += f.nodes[i].getPotential() * (i + 1); ctx.log(fmt("%ld %.12g", f.step, s)); }
    }
}
void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(3, deep ? 8 : 6), steps = r.irange(20, deep ? 500 : 150); const bool liq = r.chance(0.25); p.set("steps", steps); p.set("liquid", liq); p.set("nx", r.irange(1, 5)); p.set("gas0", r.irange(0, 6)); p.set("nt", r.chance(0.3) ? r.irange(1, 3) : 0);
    p.set("dt", r.pick(std::vector<double>{0.0125, 0.1, 0.1, 0.1, 0.5})); p.set("minLinP", r.pick(std::vector<double>{1e-8, 1e-5, 1e-3})); const double tMid = r.range(265, 335), spread = r.chance(0.4) ? 8 : 80, pMid = r.logRange(20, 300), pSp = r.chance(0.3) ? 0.01 : r.chance(0.5) ? 20 : 150;
    for (int i = 0; i < n; ++i) { std::vector<double> a{r.logRange(0.05, 20), clamp(258, tMid + spread * (r.u() - 0.5), 342), std::max(5.0, (liq ? 150 : pMid) + pSp * (r.u() - 0.5))}; for (int k = 0; k < 10; ++k) a.push_back(k < 5 ? (r.chance(0.15) ? 0.0 : r.u()) : 0); for (int k = 0; k < 3; ++k) a.push_back(r.chance(0.2) ? 0.0 : r.logRange(1e-7, 1e-3)); p.add("node", a); }
    for (int i = 0; i + 1 < n; ++i) if (r.chance(0.6)) p.add("wire", {(double)i, (double)i + 1, r.logRange(1e-7, 1e-3)});
    const int m = r.irange(1, deep ? 7 : 4), only = r.chance(0.5) ? r.irange(0, KINDS - 1) : -1;
    for (int i = 0; i < m; ++i) {
        const int k = only >= 0 && i == 0 ? only : r.irange(0, KINDS - 1); std::vector<double> a{(double)k}; for (int j = 0; j < 4; ++j) a.push_back(r.irange(0, n - 1));
        a.push_back(r.logRange(1e-6, 1e-2));
        if (k == RELIEF || k == REGULATOR) { const double u[11] = {std::max(2.0, r.chance(0.5) ? r.range(1, 40) : pMid + pSp * (r.u() - 0.5)), r.logRange(0.1, 30), r.logRange(0.1, 60), r.range(0.05, 0.9), r.range(1, 5), r.logRange(0.05, 50), r.chance(0.3) ? r.range(-5, 5) : 0, r.chance(0.3) ? r.range(-0.1, 0.1) : 0, r.u(), r.u(), r.u()}; a.insert(a.end(), u, u + 11); }
        else if (k == BPRV) { a.push_back(r.range(0, 1.2 * pMid)); for (int j = 0; j < 10; ++j) a.push_back(r.u()); }
        else if (k == W3 || k == W3CHECK) { a.push_back(r.logRange(1e-6, 1e-2)); for (int j = 0; j < 9; ++j) a.push_back(r.u()); a.push_back(r.logRange(0.05, 20)); }
        else for (int j = 0; j < 11; ++j) a.push_back(r.u());
        p.add("comp", a);
    }
    const int e = r.irange(0, deep ? 40 : 20); for (int i = 0; i < e; ++i) p.add("ev", {(double)r.irange(1, steps), (double)r.irange(0, 20), r.chance(0.06) ? 9.0 : (double)r.irange(0, 6), r.chance(0.15) ? 0.0 : r.chance(0.15) ? 1.0 : r.range(-0.5, 1)});
}

Register f05({"F05", "distinct = a different network, components, initial state or event schedule; trivial = no component moved fluid", "component kind with its mode (position band, direction, regime)", {{"components", 1, gen, run}}, 30000, 1500000,
    {"Gunns solver, fluid nodes and capacitors", "relief, regulator and balanced pressure-reducing valves, hatch, 3-way and 3-way check valves, dynamic and condensing heat exchangers, hi-fi orifice and valve, displacement and centrifugal pumps, turbine, heater"},
    {"health & status manager replaced by a recorder", "nodes' collection methods wrapped to record each link's flows", "operators and malfunctions scripted by the plan"},
    {"Steps in which a node is asked for more fluid than it holds are documented not to conserve and are not judged for conservation"}});
} // namespace
void compRun(const Plan& p, Ctx& c) { run(p, c); }
void compGen(Rng& r, Plan& p, bool deep) { gen(r, p, deep); }
} // namespace dst
