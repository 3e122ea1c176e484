// F06: fluid stores that an operator can edit (tanks, inflatable balloons, spring accumulators): edits reach what was
// asked for and stop there, and shells, volumes, bellows and pressures follow their laws whatever the history.
#include "compnet.hh"
#include "aspects/fluid/capacitor/GunnsFluidBalloon.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"

namespace dst {
namespace {

enum Kind { TANK, BALLOON, ACCUM, KINDS };
const char* KN[KINDS] = {"tank", "balloon", "accumulator"};
typedef FluidProperties FP; typedef ChemicalCompound CC; typedef CompNet::Comp Comp;
double clamp(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }
const double RGAS = 8.314472;

struct TankNet : CompNet {
    std::vector<int> degree; std::vector<std::shared_ptr<void> > keep;
    bool alone(int i) const { return degree[i] == 0; }
};

struct TankSt {
    double P, T, dpdt, pp[12], tgtT, tgtP, tgtX[12], q, vol, infl; bool tp, tpp, te, rate[12], performed, touched, quietEdit; int age; long n, grace, lastRate; double heldP, heldT; bool held, ve; double veV;
    TankSt() { memset(this, 0, sizeof *this); }
};

void tankLaws(TankNet& f, Comp& c, GunnsFluidTank* v, GunnsFluidBalloon* b) {
    auto st = std::make_shared<TankSt>(); c.state = st; Comp* cp = &c; TankNet* fp = &f; const int i = c.ports[0];
    st->P = f.nodes[i].getPotential(); st->dpdt = 0;
    c.pre = [=](Ctx&) {
        st->T = fp->nodes[i].mContent.getTemperature(); st->vol = v->mEditVolumeFlag ? v->mEditVolume : fp->nodes[i].getVolume(); for (int k = 0; k < fp->nx; ++k) { st->pp[k] = v->mPartialPressure[k]; st->rate[k] = v->mEditPartialPressureRateFlag[k]; st->tgtX[k] = v->mEditPartialPressureValue[k]; }
        st->tp = v->mEditTemperaturePressureFlag; st->tpp = v->mEditTemperaturePartialPressureFlag; st->te = v->mEditTemperatureFlag; st->q = v->mHeatFluxFromShell; if (b) st->infl = b->mInflation; st->ve = v->mEditVolumeFlag && !st->tp && !st->tpp; st->veV = v->mEditVolume;
    };
    c.post = [=](Ctx& x) {
        GunnsFluidNode& nd = fp->nodes[i]; const double pot = nd.getPotential(), dt = fp->dt, T = nd.mContent.getTemperature(); const std::string nm = fmt("the %s at node %d", KN[cp->kind], i);
        if (b && st->ve) { st->tp = true; st->age = 0; }
        const bool edit = st->tp || st->tpp, performed = edit && (v->mEditTemperaturePressureFlag || v->mEditTemperaturePartialPressureFlag); bool anyRate = false; for (int k = 0; k < fp->nx; ++k) anyRate |= st->rate[k];
        if (anyRate) st->lastRate = fp->step + 40; const bool settled = fp->step > st->lastRate;
        // Pressure rate filter.
        if (v->mDpdtFilterGain > 0) { const double e = st->dpdt + v->mDpdtFilterGain * ((pot - st->P) / dt - st->dpdt); x.check(near(v->mDpdt, e, 1e-9, 1e-12 + 1e-12 * pot / dt), fmt("dpdt: %s reports a pressure rate of %.12g, its filter gives %.12g", nm.c_str(), v->mDpdt, e)); } else x.check(v->mDpdt == 0, fmt("dpdt: %s reports a pressure rate with its filter off", nm.c_str()));
        st->dpdt = v->mDpdt;
        // Shell heat.
        if (pot < 1e-3 || fp->P0[i] < 1e-3 || nd.mContent.getPressure() < 1e-3 || fp->before[i]->getPressure() < 1e-3 || T < 20 || st->T < 20 || T > 2000) { x.probe("extreme_temperature"); st->P = pot; st->dpdt = v->mDpdt; st->performed = performed; st->held = false; st->tgtP = v->mEditPressureValue; return; }
        PolyFluid fl(*fp->before[i], "law", true); fl.setState(fp->before[i].get()); fl.setPressure(pot); fl.setTemperature(st->T);
        const bool own = v->mSurfaceArea > FLT_EPSILON && v->mShellRadius > FLT_EPSILON; double q = own ? fl.getThermalConductivity() * (v->mShellTemperature - st->T) * v->mSurfaceArea / v->mShellRadius : st->q;
        if (performed || v->mPotentialVector[0] < 1.0) q = 0;
        x.check(near(v->mHeatFluxFromShell, q, 1e-5, 1e-9 * (1 + std::fabs(q))), fmt("shell: %s takes %.12g W from its shell, expected %.12g", nm.c_str(), v->mHeatFluxFromShell, q));
        if (own) x.check(v->mHeatFluxToShell == -v->mHeatFluxFromShell, fmt("shell: %s gives its shell %.12g W and takes %.12g W from it", nm.c_str(), v->mHeatFluxToShell, v->mHeatFluxFromShell));
        const double heat = v->mHeatFluxFromShell + v->mBiasHeatFlux; x.check(near(fp->rec.t[cp->id][i].heat, heat, 1e-9, 1e-12), fmt("shell: %s heats its fluid with %.12g W, its shell and bias give %.12g", nm.c_str(), fp->rec.t[cp->id][i].heat, heat));
        // Outputs describe the content.
        double sp = 0, sm = 0, sx = 0; for (int k = 0; k < fp->nx; ++k) { sp += v->mPartialPressure[k]; sm += v->mMassFraction[k]; sx += v->mMoleFraction[k]; x.check(near(v->mMassFraction[k], nd.mContent.getMassFraction(k), 1e-12, 1e-15) && near(v->mPartialPressure[k], nd.mContent.getPressure() * v->mMoleFraction[k], 1e-9, 1e-12), fmt("outputs: %s misreports constituent %d", nm.c_str(), k)); }
        x.check(v->mTemperature == T && v->mDensity == nd.mContent.getDensity() && near(sm, 1, 1e-5, 0) && near(sx, 1, 1e-5, 0) && near(sp, nd.mContent.getPressure(), 1e-5, 1e-12), fmt("outputs: %s misreports its content (T %.12g %.12g rho %.12g %.12g sums %.12g %.12g p %.12g of %.12g)", nm.c_str(), v->mTemperature, T, v->mDensity, nd.mContent.getDensity(), sm, sx, sp, nd.mContent.getPressure()));
        // Balloon inflation.
        if (b) {
            const double p1 = b->mNodeMap[1] < fp->n ? fp->nodes[b->mNodeMap[1]].getPotential() : 0.0, e = clamp(b->mMinVolume, b->mActualInflatability * (pot - p1), b->mMaxVolume), V = nd.getVolume(), ai = std::max(b->mInflatability * (b->mMalfInflatabilityScaleFlag ? b->mMalfInflatabilityScaleValue : 1.0), DBL_EPSILON);
            x.check(near(b->mActualInflatability, ai, 1e-12, 0), fmt("balloon: inflatability %.12g, expected %.12g", b->mActualInflatability, ai));
            if (b->mMalfStuckFlag) x.check(b->mInflation == st->infl && near(V, b->mMinVolume + st->infl * (b->mMaxVolume - b->mMinVolume), 1e-9, 1e-12), fmt("balloon: a stuck balloon goes from inflation %.12g to %.12g, volume %.12g", st->infl, b->mInflation, V));
            else x.check(near(V, e, 1e-9, 1e-12), fmt("balloon: volume %.12g, its pressure difference of %.9g inflates it to %.12g", V, pot - p1, e));
            x.check(b->mInflation >= 0 && b->mInflation <= 1 + 1e-12 && near(b->mInflation * (b->mMaxVolume - b->mMinVolume), V - b->mMinVolume, 1e-9, 1e-12), fmt("balloon: inflation %.12g with volume %.12g", b->mInflation, V));
            x.check((b->mInflationState == GunnsFluidBalloon::DEFLATED) == (V == b->mMinVolume) && (b->mInflationState == GunnsFluidBalloon::INFLATED) == (V == b->mMaxVolume), fmt("balloon: inflation state %d at volume %.12g of %.9g-%.9g", b->mInflationState, V, b->mMinVolume, b->mMaxVolume));
        }
        const bool damped = nd.mThermalDampingMass > 0, quiet = fp->alone(i) && !fp->over && std::fabs(heat) == 0 && (!b || b->mMalfStuckFlag);
        // Temperature and pressure edits.
        const double slop = 10 * T * std::fabs(nd.mPressureCorrection) / pot;
        if (edit) {
            ++st->age; if (anyRate) st->age = std::min(st->age, 2);
            if (x.verbose) fprintf(stderr, "  pv %.12g ovr %d content P %.12g\n", v->mPotentialVector[0], v->mOverrideVector[0], nd.mContent.getPressure());
            if (st->performed && st->age > 1) x.check(near(pot, st->tgtP, 1e-9, 1e-6), fmt("edit: %s under edit is at %.12g kPa, the edit asks for %.12g", nm.c_str(), pot, st->tgtP));
            if (quiet && performed && !anyRate && v->mEditTemperatureValue > 150) {
                x.check(near(T, v->mEditTemperatureValue, 1e-7, damped || !settled ? 1 : 1e-6 + slop), fmt("edit: %s under edit is at %.12g K, the edit asks for %.12g", nm.c_str(), T, v->mEditTemperatureValue));
                if (st->tpp && !st->tp) { double s = 0; for (int k = 0; k < fp->nx; ++k) s += v->mEditPartialPressureValue[k]; for (int k = 0; s > 1e-3 && k < fp->nx; ++k) x.check(near(nd.mContent.getMoleFraction(k), v->mEditPartialPressureValue[k] / s, 1e-7, 1e-9), fmt("edit: %s under edit has mole fraction %.12g of constituent %d, the edit asks for %.12g", nm.c_str(), nd.mContent.getMoleFraction(k), k, v->mEditPartialPressureValue[k] / s)); }
                x.check(st->age < 8, fmt("edit: %s, isolated, is still being edited after %d steps (%.9g K, %.9g kPa, wants %.9g K, %.9g kPa, net flux %.6g)", nm.c_str(), st->age, T, pot, v->mEditTemperatureValue, v->mEditPressureValue, nd.getNetFlux()));
            }
            if (!performed) { x.check(std::fabs(pot - v->mEditPressureValue) < 2e-7 + 1e-9 * pot && std::fabs(st->T - v->mEditTemperatureValue) < 2e-7 + 1e-9 * st->T, fmt("edit: the edit of %s ends at %.12g K, %.12g kPa, it asked for %.12g K, %.12g kPa", nm.c_str(), st->T, pot, v->mEditTemperatureValue, v->mEditPressureValue)); x.probe("edit_complete"); st->held = quiet && !b && settled; st->heldP = v->mEditPressureValue; st->heldT = v->mEditTemperatureValue; st->n = fp->step; }
        } else st->age = 0;
        x.check(v->mOverrideVector[0] == performed, fmt("edit: %s %s its pressure while it %s edited", nm.c_str(), v->mOverrideVector[0] ? "forces" : "does not force", performed ? "is" : "is not"));
        if (st->te && !edit && quiet && !anyRate && !b && st->T > 200 && fp->step > st->grace) { x.check(near(T, v->mEditTemperatureValue, 1e-7, damped || !settled ? 1 : 1e-6 + slop), fmt("edit: %s after a temperature edit is at %.12g K, asked for %.12g", nm.c_str(), T, v->mEditTemperatureValue)); st->held = !b && settled; st->heldP = pot; st->heldT = T; st->n = fp->step; x.probe("temperature_edit"); }
        if (!edit) x.check(!v->mEditTemperatureFlag, fmt("edit: the temperature edit of %s goes on", nm.c_str()));
        if (!quiet || anyRate || st->touched) st->held = false;
        if (st->held && fp->step > st->n) x.check(near(pot, st->heldP, 1e-4, 1e-6) && near(T, st->heldT, 1e-4, 1e-6), fmt("edit: %s, isolated, was left at %.9g K, %.9g kPa and is now at %.9g K, %.9g kPa (%ld steps later)", nm.c_str(), st->heldT, st->heldP, T, pot, fp->step - st->n));
        // Partial pressure rate edits.
        double in = 0, inGross = 0; bool odd = st->T < 200 || st->T > 450; double maxd = 0;
        for (int k = 0; k < fp->nx; ++k) if (st->rate[k]) {
            const double d = std::fabs(v->mEditPartialPressureRateValue[k]) * dt, gap = st->tgtX[k] - st->pp[k]; maxd = std::max(maxd, d); if (std::fabs(std::fabs(gap) - d) < 1e-9 * (1 + d)) odd = true;
            const bool more = std::fabs(gap) > d && std::fabs(v->mEditPartialPressureRateValue[k]) > DBL_EPSILON; if (more) { const double r = d * nd.mContent.mConstituents[k].mFluid.getMWeight() / (RGAS * st->T) * st->vol / dt; in += gap > 0 ? r : -r; inGross += r; }
            if (!odd) x.check(v->mEditPartialPressureRateFlag[k] == more, fmt("rate edit: constituent %d of %s is %.9g kPa off with steps of %.9g kPa, edit goes on: %d", k, nm.c_str(), gap, d, v->mEditPartialPressureRateFlag[k]));
        }
        if (!odd && !b) x.check(near(fp->rec.t[cp->id][i].in, in, 2e-2, 1e-12 + 2e-2 * inGross + 1e-15 * nd.mContent.getMass() / dt), fmt("rate edit: %s adds %.9g kg/s to its node, the edits in progress need %.9g", nm.c_str(), fp->rec.t[cp->id][i].in, in));
        if (edit || st->te || st->touched || !quiet) st->grace = std::max(st->grace, fp->step + (edit || st->te || !quiet ? 40 : 0));
        if (anyRate && !odd && !b && fp->step > st->grace) for (int k = 0; k < fp->nx; ++k) {
            const double d = std::fabs(v->mEditPartialPressureRateValue[k]) * dt, gap = st->tgtX[k] - st->pp[k], e = !st->rate[k] || std::fabs(gap) <= d ? 0 : gap > 0 ? d : -d; 
            if (x.verbose) fprintf(stderr, "step %ld k %d pp %.12g -> %.12g e %.9g in %.9g T %.12g -> %.12g pot %.12g src %.9g\n", fp->step, k, st->pp[k], v->mPartialPressure[k], e, in, st->T, T, pot, v->mSourceVector[0]);
            x.check(near(v->mPartialPressure[k] - st->pp[k], e, 2e-2, 2e-2 * maxd + 1e-5 * pot), fmt("rate edit: the partial pressure of constituent %d of %s moved by %.9g kPa, expected %.9g (target %.9g kPa away)", k, nm.c_str(), v->mPartialPressure[k] - st->pp[k], e, gap));
            if (st->rate[k] && e != 0) x.probe("rate_edit_step");
        }
        // Mass.
        if (!fp->over && !(b ? edit : performed) && !st->te && !st->touched && nd.getVolume() > 0) { double s = 0, g = 0; for (auto& l : fp->rec.t) { s += l[i].in - l[i].out; g += std::fabs(l[i].in) + l[i].out; } if (s * dt > -0.5 * fp->m0[i]) x.check(near(nd.mContent.getMass() - fp->m0[i], s * dt, 1e-8, 1e-12 + 1e-11 * (fp->m0[i] + g * dt)), fmt("mass: %s changed by %.12g kg, links moved %.12g", nm.c_str(), nd.mContent.getMass() - fp->m0[i], s * dt)); }
        if (x.verbose) fprintf(stderr, "step %ld edit %d performed %d pot %.9g T %.9g m %.9g -> %.9g V %.9g corr %.6g gain %.6g flux %.6g\n", fp->step, edit, performed, pot, T, fp->m0[i], nd.mContent.getMass(), nd.getVolume(), nd.mPressureCorrection, nd.mCorrectGain, nd.getNetFlux());
        st->P = pot; st->performed = performed; st->touched = false; st->tgtP = v->mEditPressureValue;
        x.state((uint64_t)(cp->kind * 4096 + performed * 1 + st->tp * 2 + st->tpp * 4 + anyRate * 8 + quiet * 16 + own * 32 + (b ? b->mInflationState * 64 + b->mMalfStuckFlag * 512 : 0) + st->te * 1024 + (pot < 1) * 2048));
    };
    c.event = [=](int what, double val, Ctx& x) {
        const double a = clamp(0, val, 1); const int k = (int)(a * 97) % fp->nx; st->touched = true; const double T = 250 + 90 * a, P = val < 0 ? 0.0 : 2 + 300 * std::fmod(a * 7.3, 1.0); double pp[12] = {0}; for (int j = 0; j < fp->nx; ++j) pp[j] = std::fmod(a * (3.1 + j), 1.0) < 0.2 ? 0.0 : 150 * std::fmod(a * (5.7 + j), 1.0);
        switch (what % 10) {
        case 0: v->editTemperature(val > 0.05, T); x.fault("temperature_edit"); break;
        case 1: if (!v->mEditTemperaturePartialPressureFlag) { v->editTemperaturePressure(val > -0.3, T, P); st->age = 0; st->performed = false; x.fault("pressure_edit"); } break;
        case 2: if (!v->mEditTemperaturePressureFlag) { v->editTemperaturePartialPressure(val > -0.3, T, val < 0 ? 0 : pp); st->age = 0; st->performed = false; x.fault("partial_pressure_edit"); } break;
        case 3: case 4: case 5: v->editPartialPressureRate(fp->types[k], val > -0.4, val < 0 ? 0 : 100 * std::fmod(a * 11.3, 1.0), val > 0.97 ? 0.0 : (what % 2 ? 1 : -1) * 0.05 * (1 + 40 * std::fmod(a * 17.9, 1.0))); x.fault("partial_pressure_rate_edit"); break;
        case 6: v->mShellTemperature = 230 + 130 * a; if (!(v->mSurfaceArea > 0)) v->mHeatFluxFromShell = 200 * val; x.fault("shell_temperature_step"); break;
        case 7: if (!b || !b->mMalfStuckFlag) { v->editVolume(true, b ? val : 0.05 + 10 * a); st->age = 0; st->performed = false; x.fault("volume_edit"); } break;
        case 8: if (b) { if (val > 0.3) { b->mMalfInflatabilityScaleFlag = val > 0.6; b->mMalfInflatabilityScaleValue = 2 * a; x.fault("inflatability_malfunction"); } else { b->mMalfStuckFlag = val > 0; x.fault("stuck_malfunction"); } } break;
        default: v->restart(); st->age = 0; st->performed = false; st->P = v->mPreviousPressure; st->dpdt = v->mDpdt; x.fault("restart"); for (int j = 0; j < fp->nx; ++j) x.check(!v->mEditPartialPressureRateFlag[j], "restart: a partial pressure edit survives a restart"); x.check(!v->mEditTemperatureFlag && !v->mEditTemperaturePressureFlag && !v->mEditTemperaturePartialPressureFlag && !v->mEditVolumeFlag, "restart: an edit survives a restart");
        }
    };
}

struct AccSt { double pos, m, T, h, P, V, Vp, tm, scale, timer; bool edit, te, stuck, stick, toPos, hold, holdT; AccSt() { memset(this, 0, sizeof *this); } };
void accumLaws(TankNet& f, Comp& c, GunnsFluidAccum* v) {
    auto st = std::make_shared<AccSt>(); c.state = st; Comp* cp = &c; TankNet* fp = &f; const int i = c.ports[0];
    c.pre = [=](Ctx&) { PolyFluid& l = *v->mInternalFluid; st->pos = v->mBellowsPosition; st->m = l.getMass(); st->T = l.getTemperature(); st->h = l.getSpecificEnthalpy(); st->P = l.getPressure(); st->V = v->mLiquidVolume; st->Vp = v->mPressurizerVolume; st->scale = v->mEffConductivityScale; st->timer = v->mEditBellowsTimer; st->edit = v->mEditBellowsFlag; st->te = v->mEditTemperatureFlag; st->stuck = v->mBellowsStuck; st->stick = v->mMalfBellowsStickFlag; st->toPos = v->mMalfBellowsStickToPosFlag; st->hold = v->mHoldAccumFlag; st->holdT = v->mHoldTemperatureFlag; };
    c.post = [=](Ctx& x) {
        PolyFluid& l = *v->mInternalFluid; GunnsFluidNode& nd = fp->nodes[i]; const double dt = fp->dt, pot = nd.getPotential(); const bool malf = st->stick || st->toPos, editing = st->edit && !malf; const double lo = v->mMinChamberVol, hi = v->mMaxChamberVol, range = hi - lo;
        x.check(v->mLiquidVolume >= lo && v->mLiquidVolume <= hi && v->mPressurizerVolume >= lo && v->mPressurizerVolume <= hi && near(v->mLiquidVolume + v->mPressurizerVolume, lo + hi, 1e-9, 1e-12), fmt("volumes: liquid %.12g and pressurizer %.12g in an accumulator of %.12g", v->mLiquidVolume, v->mPressurizerVolume, lo + hi));
        x.check(v->mBellowsPosition >= 0 && v->mBellowsPosition <= 1 && near(v->mBellowsPosition, (v->mLiquidVolume - lo) / range, 1e-9, 1e-12), fmt("bellows: position %.12g with %.12g m3 of liquid", v->mBellowsPosition, v->mLiquidVolume));
        const double ps = v->mSpringCoeff0 + v->mBellowsPosition * (v->mSpringCoeff1 + v->mBellowsPosition * v->mSpringCoeff2);
        x.check(near(l.getPressure(), clamp(DBL_EPSILON, ps + v->mAccelPressureHead, v->mMaxPressure), 1e-9, 1e-12), fmt("pressure: the accumulator's liquid is at %.12g kPa, its spring and head give %.12g", l.getPressure(), ps + v->mAccelPressureHead));
        // Flow.
        const double A = v->mAdmittanceMatrix[3], flux = (pot - st->P) * A; 
        x.check(near(v->mFlux, flux, 1e-9, 1e-14 + 1e-15 * A * (pot + st->P)), fmt("flow: the accumulator takes %.12g kmol/s, its admittance gives %.12g", v->mFlux, flux));
        const Touch& t = fp->rec.t[cp->id][i]; const double q = t.out - t.in; x.check(near(v->mFlowRate, q, 1e-9, 1e-12), fmt("flow: the accumulator declares %.12g kg/s, its node gives %.12g", v->mFlowRate, q));
        x.check(v->mFlowRate * v->mFlux >= 0 && near(v->mFlowRate, v->mFlux * (v->mFlux > 0 ? nd.mOutflow.getMWeight() : l.getMWeight()), 1e-9, 1e-15), fmt("flow: %.12g kmol/s moves as %.12g kg/s", v->mFlux, v->mFlowRate));
        const double slope = 2 * st->pos * v->mSpringCoeff2 + v->mSpringCoeff1 + v->mAccelPressureHead / std::max(st->pos, DBL_EPSILON); double cap = 0; if (slope > DBL_EPSILON) cap = range / slope;   // m3/kPa
        const double db = v->mMinDeadBandVol - lo, thr = v->mFillModePressureThreshold; double s = 1; const double pOld = fp->P0[i]; const int mode = pOld - st->P > thr ? 1 : st->P - pOld > thr ? -1 : 0;
        const int zone = st->V <= lo ? -2 : st->V >= hi ? 2 : st->V < v->mMinDeadBandVol ? -1 : st->V > hi - db ? 1 : 0;
        if (st->stuck) s = 0; else if (zone == 0 || st->edit) s = 1;
        else if (thr > DBL_EPSILON && mode != 0) { if (mode > 0 && zone == 1) s = clamp(0, (st->Vp - lo) / db, 1); else if (mode < 0 && zone == -1) s = clamp(0, (st->V - lo) / db, 1); else if ((mode > 0 && zone == 2) || (mode < 0 && zone == -2)) s = 0; else s = clamp(0, std::min(1.0, st->scale + std::min(v->mEffCondScaleOneWayRate, 1 / dt) * dt), 1); }
        else if (zone == -1) s = clamp(0, (st->V - lo) / db, 1); else if (zone == 1) s = clamp(0, (st->Vp - lo) / db, 1); else if ((zone == -2 && mode > 0) || (zone == 2 && mode < 0)) s = v->mMinConductivityScale; else s = 0;
        x.check(near(v->mEffConductivityScale, s, 1e-9, 1e-12), fmt("conductance: scale %.12g in zone %d filling %d, expected %.12g", v->mEffConductivityScale, zone, mode, s));
        x.check(A >= 0 && A <= s * v->mMaxConductivity * (1 + 1e-12) + 1e-300, fmt("conductance: %.12g exceeds the scaled limit %.12g", A, s * v->mMaxConductivity));
        if (slope > DBL_EPSILON) { const double cMol = cap * st->tm / l.getMWeight() / dt; x.check(near(A, s * std::min(cMol, v->mMaxConductivity), 1e-9, 1e-300), fmt("conductance: %.12g, spring slope %.9g kPa and limit %.9g give %.12g (scale %.6g)", A, slope, v->mMaxConductivity, s * std::min(cMol, v->mMaxConductivity), s)); }
        if (st->stuck) x.check(A == 0 && v->mFlowRate == 0, fmt("stuck: a stuck bellows passes %.12g kg/s", v->mFlowRate));
        // Contents.
        const double flowQ = v->mFlowRate > 0 ? v->mFlowRate * nd.mOutflow.getSpecificEnthalpy() : v->mFlowRate * st->h;
        if (malf) { x.check(!v->mEditBellowsFlag && !v->mEditTemperatureFlag, "stuck: an edit goes on while the bellows has failed"); x.probe("bellows_failed"); }
        double pos = st->pos, tgt = 0, rate = 0; bool ramp = false;
        if (st->toPos && !st->stick) { tgt = v->mMalfBellowsStickToPosValue; rate = v->mMalfBellowsStickToPosRate; ramp = true; } else if (editing) { tgt = v->mEditBellowsPosition; rate = v->mEditBellowsRate; ramp = true; }
        if (ramp) { pos = tgt > pos ? std::min(pos + rate * dt, tgt) : std::max(pos - rate * dt, tgt); x.check(rate <= v->mForceBellowsMaxRate && tgt >= 0 && tgt <= 1 && near(v->mBellowsPosition, pos, 1e-9, 1e-12), fmt("bellows: forced from %.12g towards %.12g it is at %.12g, expected %.12g", st->pos, tgt, v->mBellowsPosition, pos));
            if (editing) { const bool there = v->mBellowsPosition == tgt; x.check(v->mEditBellowsFlag == !(there && st->timer >= v->mEditHoldTime), fmt("bellows: edit %s after holding for %.9g s of %.9g s", v->mEditBellowsFlag ? "goes on" : "ends", st->timer, v->mEditHoldTime)); if (!v->mEditBellowsFlag) x.probe("bellows_edit_complete"); }
            if (!st->te) x.check(near(l.getMass(), v->mLiquidVolume * (st->tm), 1e-9, 1e-12), fmt("mass: %.12g kg in %.12g m3 of liquid", l.getMass(), v->mLiquidVolume)); }
        else if (st->stick || st->hold) { x.check(v->mBellowsPosition == st->pos, fmt("bellows: a %s bellows moves from %.12g to %.12g", st->stick ? "stuck" : "held", st->pos, v->mBellowsPosition)); if (!st->te) x.check(l.getMass() == st->m, "stuck: the mass of a stuck accumulator changes"); }
        else if (!st->te) {
            x.check(near(l.getMass(), std::max(st->m + v->mFlowRate * dt, DBL_EPSILON), 1e-9, 1e-14), fmt("mass: the accumulator goes from %.12g kg to %.12g kg with %.12g kg added", st->m, l.getMass(), v->mFlowRate * dt));
            PolyFluid w(l, "law", true); w.setState(&l); w.setPressure(st->P); w.setTemperature(l.getTemperature());
            x.check(near(v->mLiquidVolume, clamp(lo, l.getMass() / w.getDensity(), hi), 1e-9, 1e-12), fmt("volumes: %.12g kg at %.12g kg/m3 fill %.12g m3", l.getMass(), w.getDensity(), v->mLiquidVolume));
            if (!st->holdT && l.getTemperature() > v->mMinTemperature && l.getTemperature() < v->mMaxTemperature && st->T >= v->mMinTemperature && st->T <= v->mMaxTemperature && l.getMass() > 1e-6) { const double e = st->m * st->h + (v->mLiquidHousingQ + flowQ) * dt, g = l.getMass() * l.getSpecificEnthalpy(); x.check(near(g, e, 1e-8, 1e-9), fmt("energy: the accumulator's liquid holds %.12g J, it had %.12g and got %.12g", g, st->m * st->h, e - st->m * st->h)); }
        }
        if (st->te) { x.check(!v->mEditTemperatureFlag, "edit: the temperature edit goes on"); if (st->hold && !malf && !st->edit) x.check(near(l.getTemperature(), clamp(v->mMinTemperature, v->mEditTemperatureValue, v->mMaxTemperature), 1e-9, 1e-9), fmt("edit: the liquid is at %.12g K, the edit asks for %.12g", l.getTemperature(), v->mEditTemperatureValue)); x.probe("temperature_edit"); }
        if (st->holdT && !st->te) x.check(l.getTemperature() == clamp(v->mMinTemperature, st->T, v->mMaxTemperature), fmt("hold: temperature held at %.12g K goes to %.12g", st->T, l.getTemperature()));
        st->tm = l.getDensity();
        x.state((uint64_t)(cp->kind * 4096 + (zone + 2) + (mode + 1) * 8 + st->stick * 32 + st->toPos * 64 + st->edit * 128 + st->te * 256 + st->hold * 512 + st->holdT * 1024)); if (q != 0) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) {
        const double a = clamp(0, val, 1);
        switch (what % 9) {
        case 0: v->setMalfBellowsStick(val > 0.3); x.fault("stuck_malfunction"); break;
        case 1: v->setMalfBellowsStickToPos(val > 0.2, 1.5 * val - 0.2, 0.2 * a); x.fault("stick_to_position_malfunction"); break;
        case 2: case 3: v->mEditBellowsFlag = val > 0; v->mEditBellowsPosition = 1.5 * std::fmod(a * 7.7, 1.0) - 0.2; v->mEditBellowsRate = 0.3 * std::fmod(a * 3.1, 1.0); x.fault("bellows_edit"); break;
        case 4: v->mEditTemperatureFlag = true; v->mEditTemperatureValue = 250 + 120 * a; x.fault("temperature_edit"); break;
        case 5: v->mHoldAccumFlag = val > 0.2; x.fault("hold_command"); break;
        case 6: v->mHoldTemperatureFlag = val > 0.2; x.fault("hold_temperature_command"); break;
        case 7: v->mLiquidHousingQ = 3000 * val; x.fault("housing_heat_step"); break;
        default: v->mAccelPressureHead = val > 0.5 ? 40 * a : 0; x.fault("acceleration_head_step");
        }
    };
    st->tm = v->mInternalFluid->getDensity();
}

void run(const Plan& p, Ctx& ctx) {
    HsTap hs; TankNet f; const bool liquid = p.geti("liquid"); std::vector<FP::FluidType> ty; const FP::FluidType G[4] = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O}; const int mask = std::abs(p.geti("mask", 7));
    if (liquid) ty.push_back(mask % 2 ? FP::GUNNS_WATER : FP::GUNNS_PG40); else for (int i = 0; i < 4; ++i) if (mask >> i & 1) ty.push_back(G[i]);
    if (ty.empty()) ty.push_back(FP::GUNNS_N2);
    f.begin(p, ty, {}); f.degree.assign(f.n + 1, 0); std::vector<char> used(f.n, 0); int k = 0;
    for (auto& o : p.ops) {
        if (o.kind == "wire") { const int a = f.node(std::abs(o.i(0))), b = f.node(std::abs(o.i(1))); if (a == b) continue; f.conductor(fmt("w%d", k++), a, b, clamp(0, o.d(2), 1)); ++f.degree[a]; ++f.degree[b]; }
        if (o.kind == "comp") {
            const int nd = f.node(std::abs(o.i(1))); if (used[nd]) continue; if (!liquid && f.nd[nd].d(0) > 0) continue;   // a store is its node's only capacitance
            f.comps.emplace_back(new Comp); Comp& c = *f.comps.back(); c.ports.push_back(nd); c.name = fmt("c%d", k++); for (int i = 0; i < 12; ++i) c.u[i] = clamp(0, o.d(3 + i), 1); const double* u = c.u; used[nd] = 1;
            const int amb = o.i(2) % 3 == 0 ? f.n : f.node(std::abs(o.i(2)));
            if (liquid) {
                c.kind = ACCUM; const double minP = 1 + 9 * u[1], volume = std::pow(10, -2.5 + 2.5 * u[0]), c1 = u[2] < 0.1 ? 0.0 : 300 * u[2], c2 = u[3] < 0.5 ? 0.0 : 100 * u[3]; auto* v = f.make<GunnsFluidAccum>(c); PolyFluidInputData d(275 + 60 * u[4], 101.325, 0, 0, f.w[nd].data());
                v->initialize(GunnsFluidAccumConfigData(c.name, &f.list, u[5] < 0.3 ? 1.0 : std::pow(10, -5 + 4 * u[5]), 0.01 + 0.5 * u[6], volume, minP, minP + 1 + 10 * u[7], 0.01 + 0.3 * u[8], u[9] < 0.3 ? 0 : 3 * u[9], 274, 350, 900, 20 + 150 * u[10], c1, c2, u[11] < 0.5 ? 0.0 : 3 * u[11], 0.01 + u[6]), GunnsFluidAccumInputData(false, 0, u[8] < 0.1 ? 0 : u[8] > 0.9 ? 1 : u[8], &d, u[9] > 0.8 ? 500 : 0), f.links, f.n, nd); accumLaws(f, c, v);
            } else {
                c.kind = std::abs(o.i(0)) % 2; const float A = u[1] > 0.5 ? 10 * u[1] : 0, R = u[1] > 0.45 ? 0.1 + u[2] : 0, bias = u[4] > 0.85 ? 100 * (u[4] - 0.9) : 0; const double gain = u[5] < 0.2 ? 0 : u[5] > 0.9 ? 1 : u[5], damp = u[6] > 0.7 ? 20 * u[6] : 0, ex = u[7] < 0.4 ? 0 : u[7];
                if (c.kind == TANK) { auto* v = f.make<GunnsFluidTank>(c); v->initialize(GunnsFluidTankConfigData(c.name, &f.list, ex, gain, damp, 1e-6, A, R), GunnsFluidTankInputData(false, 0, std::pow(10, -2 + 4 * u[0]), f.in[nd].get(), 250 + 90 * u[3], bias), f.links, nd, f.n); tankLaws(f, c, v, 0); }
                else { const int a = amb == nd ? f.n : amb; if (a < f.n) { ++f.degree[nd]; ++f.degree[a]; } auto* v = f.make<GunnsFluidBalloon>(c); const double mx = std::pow(10, -1 + 2 * u[0]); v->initialize(GunnsFluidBalloonConfigData(c.name, &f.list, ex, gain, damp, 1e-6, A, R, mx * (0.1 + u[8]) / f.nd[nd].d(2, 100), mx), GunnsFluidBalloonInputData(u[9] > 0.95, u[10] > 0.9, u[11], f.in[nd].get(), 250 + 90 * u[3], bias), f.links, nd, a); tankLaws(f, c, v, v); }
            }
        }
    }
    f.finish(p); const long steps = std::min(1500, p.geti("steps", 60));
    for (f.step = 1; f.step <= steps; ++f.step) {
        for (auto& o : p.ops) if (o.kind == "ev" && o.i(0) == f.step) { if (o.i(2) == 11) { f.dt = clamp(1e-3, std::fabs(o.d(3)), 2); ctx.fault("time_step_change"); } else if (!f.comps.empty()) { Comp& c = *f.comps[std::abs(o.i(1)) % f.comps.size()]; if (c.event) c.event(std::abs(o.i(2)), o.d(3), ctx); } }
        if (!f.advance(hs, ctx)) break;
        for (auto& c : f.comps) { ctx.check(finite(f.rec.t[c->id][c->ports[0]].in), fmt("finite: the %s moves a flow that is not a number", KN[c->kind])); if (!f.over && c->kind == ACCUM) f.checkSchedule(*c, ctx); c->post(ctx); }
        if (f.step % 10 == 0) { double s = 0; for (int i = 0; i < f.n; ++i) s += f.nodes[i].getPotential() * (i + 1); ctx.log(fmt("%ld %.12g", f.step, s)); }
    }
}
void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(2, deep ? 8 : 6), steps = r.irange(20, deep ? 500 : 150); p.set("steps", steps); const int liquid = r.chance(0.35); p.set("liquid", liquid); p.set("mask", r.irange(1, 15));
    p.set("dt", r.pick(std::vector<double>{0.0125, 0.1, 0.1, 0.1, 0.5, 1.0})); p.set("minLinP", r.pick(std::vector<double>{1e-8, 1e-5, 1e-3})); const double tMid = r.range(275, 330), pMid = r.logRange(20, 300), pSp = r.chance(0.3) ? 0.01 : r.chance(0.5) ? 20 : 150;
    for (int i = 0; i < n; ++i) { std::vector<double> a{liquid ? r.logRange(0.01, 1) : r.chance(0.75) ? 0.0 : r.logRange(0.05, 20), clamp(274, tMid + 40 * (r.u() - 0.5), 342), std::max(5.0, pMid + pSp * (r.u() - 0.5))}; for (int k = 0; k < 4; ++k) a.push_back(r.chance(0.15) ? 0.0 : r.u() * (r.chance(0.3) ? 0.05 : 1)); p.add("node", a); }
    for (int i = 0; i < n; ++i) { std::vector<double> a{(double)(r.chance(0.35)), (double)i, (double)r.irange(0, 12)}; for (int j = 0; j < 12; ++j) a.push_back(r.chance(0.08) ? 0.0 : r.chance(0.08) ? 1.0 : r.u()); p.add("comp", a); }
    const double pw = r.pick(std::vector<double>{0.0, 0.3, 0.7}); for (int i = 0; i + 1 < n; ++i) if (r.chance(pw)) p.add("wire", {(double)i, (double)i + 1, r.logRange(1e-7, 1e-3)});
    const int e = r.irange(1, deep ? 40 : 20); for (int i = 0; i < e; ++i) p.add("ev", {(double)r.irange(1, steps), (double)r.irange(0, 20), r.chance(0.04) ? 11.0 : (double)r.irange(0, 10), r.chance(0.1) ? 0.0 : r.chance(0.1) ? 1.0 : r.range(-0.5, 1)});
}
Register f06({"F06", "distinct = a different network, store configuration, initial state or event schedule; trivial = no edit made and nothing exchanged", "store kind with its edit, malfunction and zone state", {{"stores", 1, gen, run}}, 60000, 3000000,
    {"Gunns solver, fluid nodes and conductors", "fluid tank, balloon and bellows accumulator"},
    {"health & status manager replaced by a recorder", "nodes' collection methods wrapped to record each link's flows", "operators and malfunctions scripted by the plan"},
    {"Steps in which a node is asked for more fluid than it holds are not judged for conservation"}});
} // namespace
void tankRun(const Plan& p, Ctx& c) { run(p, c); }
void tankGen(Rng& r, Plan& p, bool deep) { gen(r, p, deep); }
} // namespace dst
