// F07: fluid components that add, remove, store or convert fluid (adsorbers, reactors, separators, sorption beds, crew
// metabolism, fires, source boundaries, fuel cells): what they say they did is what happened to the nodes.
#include "compnet.hh"
#include "aspects/fluid/source/GunnsFluidHotAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidMultiAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidHotReactor.hh"
#include "aspects/fluid/source/GunnsFluidSeparatorGas.hh"
#include "aspects/fluid/source/GunnsFluidMultiSeparator.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic2.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic3.hh"
#include "aspects/fluid/source/GunnsFluidSourceBoundary.hh"
#include "aspects/fluid/source/GunnsFluidFireSource.hh"
#include "aspects/fluid/source/GunnsFluidSimpleH2Redox.hh"
#include "aspects/fluid/source/GunnsFluidSorptionBed.hh"

namespace dst {
namespace {

enum Kind { ADS, HOTADS, MULTIADS, REACT, HOTREACT, SEPGAS, MULTISEP, METAB1, METAB2, METAB3, SRCBOUND, FIRE, REDOX, SORPBED, KINDS };
const char* KN[KINDS] = {"adsorber", "hot adsorber", "multi-adsorber", "reactor", "hot reactor", "gas separator", "multi-separator", "metabolic link", "metabolic link 2", "metabolic link 3", "source boundary", "fire source", "H2 redox stack", "sorption bed"};
typedef FluidProperties FP; typedef ChemicalCompound CC; typedef CompNet::Comp Comp;
const FP::FluidType GAS[8] = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2O, FP::GUNNS_CO2, FP::GUNNS_H2, FP::GUNNS_CO, FP::GUNNS_CH4, FP::GUNNS_NH3};
const CC::Type GASC[8] = {CC::NO_COMPOUND, CC::O2, CC::H2O, CC::CO2, CC::H2, CC::CO, CC::CH4, CC::NH3};
const CC::Type TCS[8] = {CC::CH2O, CC::C2H6O, CC::C3H6O, CC::C6H6, CC::NH3, CC::CO, CC::CH4, CC::CH4O};
double clamp(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }

/// What a component declares to have done to the fluid this step, by species and by trace compound (kg/s).
struct Decl { double sp[12], tc[4], mol[2]; Decl() { for (double& v : sp) v = 0; for (double& v : tc) v = 0; mol[0] = mol[1] = 0; } };

struct SrcNet : CompNet {
    std::vector<std::shared_ptr<void> > keep;                          ///< configuration that components go on pointing to
    std::vector<std::vector<double> > tcDecl;                          ///< trace compounds collected directly, by node
    double mwOf(int k) const { return nodes[0].mContent.mConstituents[k].mFluid.getMWeight(); }
    int tcIdx(CC::Type t) const { for (int k = 0; k < nt; ++k) if (tcc->mCompounds[k]->mType == t) return k; return -1; }
    int chemIdx(CC::Type t) const { for (size_t k = 0; k < types.size(); ++k) for (int j = 0; j < 8; ++j) if (GAS[j] == types[k] && GASC[j] == t && t != CC::NO_COMPOUND) return (int)k; return -1; }
};

double massTol(const CompNet::Net& s, const Decl& d) { double g = s.gross; for (double v : d.sp) g += std::fabs(v); return 1e-9 * g + 3e-13; }
void closure(SrcNet& f, Comp& c, Ctx& ctx, const Decl& d, int port = -1, bool knownTrace = false) {
    const CompNet::Net s = port < 0 ? f.sum(c) : f.at(c, port); const double tol = massTol(s, d);
    for (int k = 0; k < f.nx; ++k) ctx.check(std::fabs(s.sp[k] - d.sp[k]) <= tol, fmt("species: the %s changes the nodes' species %d by %.12g kg/s, it declares %.12g (flows total %.6g)", KN[c.kind], k, s.sp[k], d.sp[k], s.gross));
    for (int k = 0; k < f.nt; ++k) if (const bool ok = near(s.tc[k], d.tc[k], 1e-8, 1e-9 * s.gross * 1e-2 + 3e-13 + 1e-12 * s.grossTc); !ok && knownTrace) ctx.finding("multi-adsorber-trace", "an active multi-compound adsorber moves other trace compound amounts than its loads say"); else ctx.check(ok, fmt("trace: the %s changes the nodes' compound %d by %.12g kg/s, it declares %.12g (flows total %.6g)", KN[c.kind], k, s.tc[k], d.tc[k], s.gross));
}
bool mixed(CompNet& f, int i) {
    if (i >= f.n) return false; if (!near(f.nodes[i].mOutflow.getTemperature(), f.before[i]->getTemperature(), 1e-9, 1e-9)) return true;
    for (int k = 0; k < f.nx; ++k) if (!near(f.nodes[i].mOutflow.getMassFraction(k), f.before[i]->getMassFraction(k), 1e-9, 1e-12)) return true;
    return false;
}
/// The molar source the solver will use for the next step is what the component really moved besides its through-flow.
void sourceLaw(Comp& c, Ctx& ctx, const double* mol, double tol = 1e-14) {
    for (int p = 0; p < 2; ++p) ctx.check(near(c.l->mSourceVector[p], mol[p], 1e-8, tol), fmt("source: the %s tells the solver %.12g kmol/s at port %d, it moved %.12g", KN[c.kind], c.l->mSourceVector[p], p, mol[p]));
}
void faultCommon(GunnsFluidLink* v, double val, Ctx& x) { v->mMalfBlockageFlag = val > 0; v->mMalfBlockageValue = clamp(0, val, 1); x.fault("blockage_malfunction"); }
double blk(const GunnsFluidLink* v) { return v->mMalfBlockageFlag ? 1 - v->mMalfBlockageValue : 1.0; }

struct Arrays { double a[16], b[16], c[16]; std::unique_ptr<GunnsFluidTraceCompoundsInputData> i, j, k; };

template <class T> void adsorberLaws(SrcNet& f, Comp& c, T* v, double maxRate, double maxMass, double desRate, bool hot) {
    struct St { double m, tc[4]; bool des; double mMax; St() : m(0), des(false), mMax(0) {} }; auto st = std::make_shared<St>(); c.state = st; Comp* cp = &c; SrcNet* fp = &f; st->mMax = std::max(maxMass, v->mAdsorbedMass);
    auto keep = std::make_shared<Arrays>();
    c.pre = [=](Ctx&) { st->m = v->mAdsorbedMass; for (int k = 0; k < fp->nt; ++k) st->tc[k] = v->mTcAdsorbedMass[k]; };
    c.post = [=](Ctx& x) {
        const double dm = v->mAdsorbedMass - st->m; Decl d; d.sp[v->mGasIndex] = -dm / fp->dt; for (int k = 0; k < fp->nt; ++k) d.tc[k] = -(v->mTcAdsorbedMass[k] - st->tc[k]) / fp->dt;
        x.check(v->mAdsorbedMass >= 0 && v->mAdsorbedMass <= st->mMax * (1 + 1e-12), fmt("capacity: the %s holds %.12g kg of %.12g", KN[cp->kind], v->mAdsorbedMass, st->mMax));
        x.check(dm <= maxRate * fp->dt * (1 + 1e-9) + 1e-15, fmt("rate: the %s took %.12g kg in one step, its limit is %.12g", KN[cp->kind], dm, maxRate * fp->dt));
        x.check(-dm <= desRate * fp->dt * (1 + 1e-9) + 1e-15, fmt("rate: the %s gave %.12g kg in one step, its limit is %.12g", KN[cp->kind], -dm, desRate * fp->dt));
        if (!hot && !v->mMalfEfficiencyFlag) x.check(v->mDesorbtionCycle ? dm <= 0 : dm >= 0, fmt("cycle: the %s changed its load by %.9g kg in the wrong cycle", KN[cp->kind], dm));
        for (int k = 0; k < fp->nt; ++k) x.check(v->mTcAdsorbedMass[k] >= st->tc[k] * (1 - 1e-12), fmt("trace: the %s lost %.12g kg of adsorbed compound %d", KN[cp->kind], st->tc[k] - v->mTcAdsorbedMass[k], k));
        const double q = std::fabs(v->mFlowRate), ulp = 9e-16 * v->mAdsorbedMass; const int in = v->mNodeMap[v->mFlowRate < 0 ? 1 : 0];
        if (dm > 0 && in < fp->n && !mixed(*fp, in)) x.check(dm <= q * fp->dt * fp->before[in]->getMassFraction(v->mGasIndex) * (1 + 1e-9) + 1e-14 * fp->dt + ulp + 1e-14, fmt("available: the %s took %.12g kg, only %.12g kg passed", KN[cp->kind], dm, q * fp->dt * fp->before[in]->getMassFraction(v->mGasIndex)));
        if (!fp->over) {
            closure(*fp, *cp, x, d); const CompNet::Net s = fp->sum(*cp); double sh = 0; if (std::fabs(dm) > 0) { PolyFluid& sf = *v->mSorbtionFluid; if (sf.getMWeight() > 0) sh = -dm / fp->dt * sf.getSpecificEnthalpy(); }
            if (q > 1e-9) x.check(near(s.h - sh, -v->mWallHeatFlux, 1e-7, 1e-6 + 1e-9 * s.grossH + 5e6 * ulp / fp->dt), fmt("heat: the %s adds %.9g W to what passes, its wall gave %.9g W", KN[cp->kind], s.h - sh, -v->mWallHeatFlux));
            double mol[2] = {0, 0}; mol[v->mFlowRate < 0 ? 0 : 1] = -dm / fp->dt / fp->mwOf(v->mGasIndex); sourceLaw(*cp, x, mol, 1e-13 + (ulp + 5e-16) / fp->dt);
        }
        x.state((uint64_t)(cp->kind * 1000 + (dm > 0) * 2 + (dm < 0) + (v->mFlowRate < 0) * 4 + (v->mAdsorbedMass >= maxMass) * 8 + (v->mMalfEfficiencyFlag) * 16)); if (dm != 0) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) {
        switch (what % 4) { case 0: faultCommon(v, val, x); break; case 1: v->mDesorbtionCycle = val > 0.3; x.fault("cycle_command"); break;
        case 2: v->setMalfEfficiency(val > 0.1, v->mDesorbtionCycle ? -clamp(0, val, 1) : clamp(0, val, 1)); x.fault("efficiency_malfunction"); break; default: v->setWallTemperature(255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); }
        if (!hot && what % 4 == 1 && v->mMalfEfficiencyFlag) v->setMalfEfficiency(true, (v->mDesorbtionCycle ? -1 : 1) * std::fabs(v->mMalfEfficiencyValue));
    };
}
void addAds(SrcNet& f, Comp& c, bool hot) {
    const FP::FluidType g = f.types[(int)(c.u[1] * 97) % f.nx]; const double eff = c.u[2], maxRate = std::pow(10, -6 + 4 * c.u[3]), maxMass = std::pow(10, -4 + 4 * c.u[4]), desRate = std::pow(10, -6 + 3 * c.u[5]), len = c.u[6] < 0.4 ? 0 : c.u[6];
    auto ar = std::make_shared<Arrays>(); for (int k = 0; k < 4; ++k) { ar->a[k] = std::fmod(c.u[7] * (k + 1.7), 1.0); ar->b[k] = k % 2 ? std::pow(10, -6 + 4 * c.u[8]) : 0; ar->c[k] = 0; }
    ar->i.reset(new GunnsFluidTraceCompoundsInputData(ar->a)); ar->j.reset(new GunnsFluidTraceCompoundsInputData(ar->b)); ar->k.reset(new GunnsFluidTraceCompoundsInputData(ar->c)); GunnsFluidTraceCompoundsInputData *a = f.nt ? ar->i.get() : 0, *b = f.nt ? ar->j.get() : 0, *d = f.nt ? ar->k.get() : 0;
    const bool des = c.u[9] > 0.7; const double m0 = maxMass * c.u[10], wall = 255 + 90 * c.u[11];
    if (hot) { auto* v = f.make<GunnsFluidHotAdsorber>(c); v->initialize(GunnsFluidHotAdsorberConfigData(c.name, &f.list, c.u[0], 0, g, eff, maxRate, maxMass, desRate, len, 0.1, 1e-6, 6 * c.u[2], -0.02 * c.u[9]), GunnsFluidHotAdsorberInputData(false, 0, des, m0, wall, a, b, d), f.links, c.ports[0], c.ports[1]); adsorberLaws(f, c, static_cast<GunnsFluidAdsorber*>(v), maxRate, maxMass, desRate, true); }
    else { auto* v = f.make<GunnsFluidAdsorber>(c); v->initialize(GunnsFluidAdsorberConfigData(c.name, &f.list, c.u[0], 0, g, eff, maxRate, maxMass, desRate, len, 0.1, 1e-6), GunnsFluidAdsorberInputData(false, 0, des, m0, wall, a, b, d), f.links, c.ports[0], c.ports[1]); adsorberLaws(f, c, v, maxRate, maxMass, desRate, false); }
}
void addMultiAds(SrcNet& f, Comp& c) {
    auto* v = f.make<GunnsFluidMultiAdsorber>(c); Comp* cp = &c; SrcNet* fp = &f; GunnsFluidMultiAdsorberConfigData cd(c.name, &f.list, c.u[0], 0, c.u[6] < 0.4 ? 0 : c.u[6], 0.1, 1e-6);
    std::vector<CC::Type> have; for (auto t : f.types) for (int j = 0; j < 8; ++j) if (GAS[j] == t && GASC[j] != CC::NO_COMPOUND) have.push_back(GASC[j]); for (int k = 0; k < f.nt; ++k) { CC::Type t = f.tcc->mCompounds[k]->mType; bool dup = false; for (auto h : have) dup |= h == t; if (!dup) have.push_back(t); }
    if (have.empty()) { f.comps.pop_back(); f.own.pop_back(); return; }
    const int m = 1 + (int)(c.u[1] * 3.99); int used = 0;
    for (int i = 0; i < m && i < (int)have.size(); ++i) { const size_t j = (i + (int)(c.u[2] * 57)) % have.size(); const double w = std::fmod(c.u[3] * 7.3 + i * 0.37, 1.0), mx = std::pow(10, -4 + 4 * c.u[4]); cd.addCompound(have[j], mx, -0.2 + 1.2 * w, c.u[5] > 0.6 ? -1e-3 : 0, c.u[7] > 0.5 ? 3 * w : 0, std::pow(10, -6 + 3 * c.u[8]), c.u[9] > 0.5 ? -40 * w : 0, std::fmod(c.u[10] * 5 + i * 0.3, 1.0) > 0.5, i > 0 && c.u[11] > 0.6 ? have[(int)(c.u[2] * 57) % have.size()] : CC::NO_COMPOUND, false, 0, mx * std::fmod(c.u[5] * 3 + i * 0.21, 1.0), 1 + 3 * c.u[10]); ++used; }
    v->initialize(cd, GunnsFluidMultiAdsorberInputData(false, 0, 255 + 90 * c.u[9]), f.links, c.ports[0], c.ports[1]);
    auto st = std::make_shared<std::vector<double> >(used, 0.0); c.state = st;
    c.pre = [=](Ctx&) { for (int i = 0; i < used; ++i) (*st)[i] = v->mCompounds[i].mAdsorbedMass; };
    c.post = [=](Ctx& x) {
        Decl d; double mol[2] = {0, 0}, sh = 0, conv = v->mWallHeatFlux; const int ex = v->mFlowRate < 0 ? 0 : 1; bool any = false;
        for (int i = 0; i < used; ++i) {
            auto& k = v->mCompounds[i]; const double dm = k.mAdsorbedMass - (*st)[i], rate = dm / fp->dt; any |= dm != 0; conv -= k.mSorptionHeat;
            x.check(k.mAdsorbedMass >= 0 && k.mAdsorbedMass <= k.mMaxAdsorbedMass, fmt("capacity: the %s holds %.12g kg of %.12g of compound %d", KN[cp->kind], k.mAdsorbedMass, k.mMaxAdsorbedMass, i));
            x.check(near(k.mAdsorptionRate * fp->dt, dm, 1e-9, 5e-16), fmt("rate: the %s says it takes %.12g kg, its load changed by %.12g", KN[cp->kind], k.mAdsorptionRate * fp->dt, dm));
            if (k.isTraceCompound()) d.tc[k.getIndex()] -= rate; else { d.sp[k.getIndex()] -= rate; mol[ex] -= rate / fp->mwOf(k.getIndex()); }
        }
        if (!fp->over) {
            double netSp = 0; for (int k = 0; k < fp->nx; ++k) netSp += d.sp[k]; const bool cancels = any && std::fabs(netSp) < 3e-14; if (!cancels) closure(*fp, *cp, x, d, -1, any); /* exchanges that cancel out exactly are not transported */ double ulp = 0; for (int i = 0; i < used; ++i) ulp += 9e-16 * v->mCompounds[i].mAdsorbedMass; if (!cancels) sourceLaw(*cp, x, mol, 1e-13 + (ulp + 5e-16) / fp->dt); const CompNet::Net s = fp->sum(*cp); double q = std::fabs(v->mFlowRate), tot = 0; for (int k = 0; k < fp->nx; ++k) tot += d.sp[k]; if (tot != 0 && v->mSorptionFluid->getMWeight() != 0) sh = tot * v->mSorptionFluid->getSpecificEnthalpy();
            if (q > 1e-9 && std::fabs(tot) > 1e-13 && !cancels) x.check(near(s.h - sh, -conv, 2e-5, 1e-5 + 1e-9 * s.grossH + 5e6 * (ulp + 5e-16) / fp->dt), fmt("heat: the %s adds %.9g W to what passes, its wall gave %.9g W", KN[cp->kind], s.h - sh, -conv));
        }
        x.state((uint64_t)(cp->kind * 1000 + any + (ex == 0) * 2 + used * 8)); if (any) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) { switch (what % 3) { case 0: faultCommon(v, val, x); break; case 1: v->mCompounds[(int)(std::fabs(val) * 50) % used].setMalfEfficiency(val > 0.1, clamp(0, val, 1)); x.fault("efficiency_malfunction"); break; default: v->setWallTemperature(255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); } };
}

void addReactor(SrcNet& f, Comp& c, bool hot) {
    struct St { DefinedChemicalReactions rx; std::vector<ChemicalReaction::Type> rt; std::vector<CC::Type> ct; std::vector<double> tot, before, eff, eff2; double Tf; }; auto st = std::make_shared<St>(); c.state = st; Comp* cp = &c; SrcNet* fp = &f;
    const int want = 1 + (int)(c.u[1] * 2.99);
    for (int i = 0; i < want; ++i) {
        const auto rt = (ChemicalReaction::Type)((i * 3 + (int)(c.u[2] * 70)) % 7); const ChemicalReaction* r = st->rx.getReaction(rt); bool ok = true; std::vector<CC::Type> need{r->mReactantType, r->mReagentType, r->mProduct1Type}; if (r->mProduct2Type != CC::NO_COMPOUND) need.push_back(r->mProduct2Type);
        for (auto t : need) { const FP::FluidType ft = f.chem->getCompound(t)->mFluidType; if (ft != FP::NO_FLUID && !f.has(ft)) ok = false; } for (auto x : st->rt) if (x == rt) ok = false;
        if (!ok) continue; st->rt.push_back(rt); for (auto t : need) { bool dup = false; for (auto x : st->ct) dup |= x == t; if (!dup) st->ct.push_back(t); }
    }
    if (st->rt.empty()) { f.comps.pop_back(); return; }
    const int nr = (int)st->rt.size(), nc = (int)st->ct.size(); st->tot.assign(nc, 0); for (int i = 0; i < nc; ++i) st->tot[i] = std::pow(10, -5 + 5 * std::fmod(c.u[3] + 0.31 * i, 1.0)); const bool eff1 = c.u[4] > 0.5, eff2 = c.u[5] > 0.7; st->eff.assign(nr, 0.2 + 0.7 * c.u[6]); st->eff2.assign(nr, c.u[7]);
    const double len = c.u[8] < 0.4 ? 0 : c.u[8], bias = c.u[9] - 0.2, sc = c.u[10] > 0.5 ? 1e-3 : 0; GunnsFluidReactor* v;
    GunnsFluidReactorInputData in(false, 0, st->tot.data(), 255 + 90 * c.u[11]);
    if (hot) { auto* h = f.make<GunnsFluidHotReactor>(c); v = h; GunnsFluidHotReactorConfigData cd(c.name, &f.list, c.u[0], 0, &st->rx, st->rt.data(), nr, f.chem.get(), st->ct.data(), nc, len, 0.1, 1e-6, bias, sc); h->initialize(cd, GunnsFluidHotReactorInputData(false, 0, st->tot.data(), 255 + 90 * c.u[11]), f.links, c.ports[0], c.ports[1]); }
    else { v = f.make<GunnsFluidReactor>(c); GunnsFluidReactorConfigData cd(c.name, &f.list, c.u[0], 0, &st->rx, st->rt.data(), nr, f.chem.get(), st->ct.data(), nc, len, 0.1, 1e-6); if (eff1) cd.mReactantEfficiency = st->eff.data(); if (eff2) cd.mReagentEfficiency = st->eff2.data(); v->initialize(cd, in, f.links, c.ports[0], c.ports[1]); }
    if (hot || !(eff1)) st->eff.assign(nr, 0); if (hot || !eff2) st->eff2.assign(nr, 0);
    st->before.assign(nc, 0);
    c.pre = [=](Ctx&) { for (int i = 0; i < nc; ++i) st->before[i] = v->mCompounds[i].mTotalMass; st->Tf = v->mFluidTemperature; };
    c.post = [=](Ctx& x) {
        const double q = std::fabs(v->mFlowRate), dt = fp->dt; const int in = v->mNodeMap[v->mFlowRate < 0 ? 1 : 0], ex = v->mFlowRate < 0 ? 0 : 1; Decl d; double heat = 0, mol[2] = {0, 0}; bool any = false;
        if (q > 1e-6 && in < fp->n) {
            // reference: reactions in order, each limited by its efficiency and by what is there
            std::vector<double> tot(nc), chg(nc, 0.0); const PolyFluid& src = fp->nodes[in].mOutflow; for (int i = 0; i < nc; ++i) { const int k = fp->chemIdx(st->ct[i]); tot[i] = k >= 0 ? src.getMassFraction(k) * q * dt : st->before[i]; }
            for (int r = 0; r < nr; ++r) {
                const ChemicalReaction* R = st->rx.getReaction(st->rt[r]); auto id = [&](CC::Type t) { for (int i = 0; i < nc; ++i) if (st->ct[i] == t) return i; return -1; }; const int a = id(R->mReactantType), b = id(R->mReagentType), p = id(R->mProduct1Type), s = id(R->mProduct2Type); auto mw = [&](int i) { return fp->chem->getCompound(st->ct[i])->mMWeight; };
                double e = hot ? clamp(0, bias + sc * st->Tf, 1) : st->eff[r] > 0 ? st->eff[r] : R->mReactantEfficiency; if (st->eff2[r] > 0) e *= st->eff2[r] * tot[b];
                const double ext = std::min(tot[b] * 0.9999 / (mw(b) * R->mReagentMoleRatio), tot[a] * std::min(0.9999, e) / (mw(a) * R->mReactantMoleRatio)); const double da = ext * mw(a) * R->mReactantMoleRatio, db = ext * mw(b) * R->mReagentMoleRatio; any |= ext > 0;
                chg[a] -= da; tot[a] -= da; chg[b] -= db; tot[b] -= db; const double dp = ext * mw(p) * R->mProduct1MoleRatio; chg[p] += dp; tot[p] += dp; if (s >= 0) { const double ds = ext * mw(s) * R->mProduct2MoleRatio; chg[s] += ds; tot[s] += ds; } heat += ext * R->mReactionHeat * 1e6;
            }
            for (int i = 0; i < nc; ++i) { const int k = fp->chemIdx(st->ct[i]); if (k >= 0) { if (std::fabs(chg[i]) > 1e-15) { d.sp[k] += chg[i] / dt; mol[ex] += chg[i] / dt / fp->mwOf(k); } } else x.check(near(v->mCompounds[i].mTotalMass, tot[i], 1e-9, 1e-15), fmt("stored: the %s holds %.12g kg of its solid compound %d, the reactions leave %.12g", KN[cp->kind], v->mCompounds[i].mTotalMass, i, tot[i])); x.check(v->mCompounds[i].mTotalMass >= 0, fmt("stored: the %s holds a negative amount of compound %d", KN[cp->kind], i)); }
        } else if (q < 1e-8) for (int i = 0; i < nc; ++i) if (fp->chemIdx(st->ct[i]) < 0) x.check(v->mCompounds[i].mTotalMass == st->before[i], "stored: a reactor consumes its solids with no flow");
        if (!fp->over && (q > 1e-6 || q < 1e-8) && (q < 1e-8 || in < fp->n)) {
            double slack = 1e-15 / dt * nc * 4; const CompNet::Net s = fp->sum(*cp); const double tol = massTol(s, d) + slack;
            for (int k = 0; k < fp->nx; ++k) x.check(std::fabs(s.sp[k] - d.sp[k]) <= tol, fmt("species: the %s changes species %d by %.12g kg/s, its reactions make %.12g (flow %.6g)", KN[cp->kind], k, s.sp[k], d.sp[k], q));
            for (int k = 0; k < fp->nt; ++k) x.check(std::fabs(s.tc[k]) <= 1e-8 * (s.gross * 1e-2) + 3e-13 + 1e-12 * s.grossTc, fmt("trace: the %s creates %.9g kg/s of compound %d", KN[cp->kind], s.tc[k], k));
            double sh = 0; if (v->mProductsFlowRate > 1e-14) sh += v->mProductsFlowRate * v->mProductsFluid->getSpecificEnthalpy(); if (v->mReactantsFlowRate < -1e-14) sh += v->mReactantsFlowRate * v->mReactantsFluid->getSpecificEnthalpy();
            const double T = v->mInternalFluid->getTemperature(); const double Tm = T + v->mWallHeatFlux / (std::max(q, 1e-12) * v->mInternalFluid->getSpecificHeat()); if (q > 1e-6 && T > 150 && T < 600 && Tm > 160 && Tm < 590) x.check(near(s.h - sh, heat / dt - v->mWallHeatFlux, 1e-6, 1e-6 + 1e-8 * s.grossH), fmt("heat: the %s adds %.9g W to what passes, its reactions give %.9g W and its wall takes %.9g W", KN[cp->kind], s.h - sh, heat / dt, v->mWallHeatFlux));
            for (int p = 0; p < 2; ++p) x.check(near(v->mSourceVector[p], mol[p], 1e-7, 1e-13 + slack), fmt("source: the %s tells the solver %.12g kmol/s at port %d, it moved %.12g", KN[cp->kind], v->mSourceVector[p], p, mol[p]));
        }
        x.state((uint64_t)(cp->kind * 1000 + any + (ex == 0) * 2 + (int)st->rt[0] * 4)); if (any) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 2) { v->setWallTemperature(255 + 90 * clamp(0, val, 1)); x.fault("wall_temperature_step"); } else faultCommon(v, val, x); };
}

void addSepGas(SrcNet& f, Comp& c) {
    if (!f.has(FP::GUNNS_H2O)) { f.comps.pop_back(); return; }
    auto* v = f.make<GunnsFluidSeparatorGas>(c); Comp* cp = &c; SrcNet* fp = &f; const double maxL = std::pow(10, -4 + 3 * c.u[1]), ref = std::pow(10, -6 + 4 * c.u[2]); const int g = f.idx(FP::GUNNS_H2O);
    v->initialize(GunnsFluidSeparatorGasConfigData(c.name, &f.list, c.u[0], FP::GUNNS_H2O, 0.5 + c.u[3], maxL, 1000, 50, ref), GunnsFluidSeparatorGasInputData(false, 0, 2000 * c.u[4], c.u[5] * ref, maxL * c.u[6]), f.links, c.ports[0], c.ports[1]);
    auto st = std::make_shared<std::pair<double, double> >(); c.state = st;
    c.pre = [=](Ctx&) { st->first = v->mLiquidMass; st->second = v->mLiquidMassError; };
    c.post = [=](Ctx& x) {
        const double dt = fp->dt, drawn = std::max(0.0, v->mTransferFlowRate * dt), sep = v->mSeparationRate; Decl d; d.sp[g] = -sep;
        x.check(near(v->mLiquidMass - st->first, sep * dt - drawn + (v->mLiquidMassError - st->second), 1e-9, 1e-15), fmt("liquid: the separator's liquid changed by %.12g kg, it separated %.12g, gave %.12g and was short %.12g", v->mLiquidMass - st->first, sep * dt, drawn, v->mLiquidMassError - st->second));
        x.check(v->mLiquidMass >= 0 && v->mLiquidMass <= maxL * (1 + 1e-12) && v->mLiquidMassError >= st->second, fmt("capacity: the separator holds %.12g kg of %.12g", v->mLiquidMass, maxL));
        x.check(sep >= -1e-15 && sep <= ref / 1000 * v->mSeparatorSpeed * (1 + 1e-9) + 1e-15, fmt("rate: the separator takes %.12g kg/s, its speed allows %.12g", sep, ref / 1000 * v->mSeparatorSpeed));
        x.check(sep <= std::max(0.0, v->mFlowRate) * (1 + 1e-12) + 1e-15, fmt("available: the separator takes %.12g kg/s out of a flow of %.12g", sep, v->mFlowRate));
        x.check(sep == 0 || v->mRelativeHumidity >= 1, "humidity: the separator condenses unsaturated gas");
        if (!fp->over) { closure(*fp, *cp, x, d); double mol[2] = {0, -sep / fp->mwOf(g)}; sourceLaw(*cp, x, mol); }
        x.state((uint64_t)(cp->kind * 1000 + (sep > 0) + (v->mLiquidOverflow) * 2 + (v->mLiquidMassError > st->second) * 4)); if (sep > 0) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) { switch (what % 3) { case 0: faultCommon(v, val, x); break; case 1: v->mSeparatorSpeed = 2000 * std::fabs(val); x.fault("pump_speed_step"); break; default: v->mTransferFlowRate = ref * val * 2; x.fault("transfer_command"); } };
}
void addMultiSep(SrcNet& f, Comp& c) {
    auto* v = f.make<GunnsFluidMultiSeparator>(c); Comp* cp = &c; SrcNet* fp = &f; const int extra0 = 1 + (int)(c.u[1] * 2.99), ns = std::min(f.nx, (int)(c.u[2] * 3.99)), ntc = std::min(f.nt, (int)(c.u[3] * 3.99));
    if (ns + ntc < 1 || f.n < 3) { f.comps.pop_back(); f.own.pop_back(); return; }
    std::vector<int> ports{c.ports[0], c.ports[1]}; for (int i = 0; i < f.n && (int)ports.size() < 2 + extra0; ++i) { const int nd = f.node(c.ports[2] + i); bool dup = false; for (int q : ports) dup |= q == nd; if (!dup) ports.push_back(nd); } const int extra = (int)ports.size() - 2; if (extra < 1) { f.comps.pop_back(); f.own.pop_back(); return; }
    std::vector<FP::FluidType> ft; std::vector<int> fpn, tp; std::vector<CC::Type> tt; std::vector<double> ff, tf; auto h = [&](int a, int b) { return std::fmod(c.u[a] * (b + 1.37) * 7, 1.0); };
    for (int i = 0; i < ns; ++i) { ft.push_back(f.types[(i + (int)(c.u[4] * 31)) % f.nx]); fpn.push_back(2 + (int)(h(5, i) * extra) % extra); ff.push_back(c.u[6] > 0.8 ? 1.0 : h(6, i)); }
    for (int i = 0; i < ntc; ++i) { tt.push_back(f.tcc->mCompounds[(i + (int)(c.u[7] * 31)) % f.nt]->mType); tp.push_back(2 + (int)(h(8, i) * extra) % extra); tf.push_back(h(9, i)); }
    v->initialize(GunnsFluidMultiSeparatorConfigData(c.name, &f.list, c.u[0], &ft, &fpn, &tt, &tp), GunnsFluidMultiSeparatorInputData(false, 0, &ff, &tf), f.links, &ports);
    auto st = std::make_shared<std::vector<double> >(ns, 0.0); c.state = st;
    c.pre = [=](Ctx&) { for (int i = 0; i < ns; ++i) (*st)[i] = v->mSepBufferThru[i]; };
    c.post = [=](Ctx& x) {
        Decl d; const int up = v->mFlux < 0 ? 1 : 0, in = v->mNodeMap[up]; const PolyFluid& src = fp->nodes[in].mOutflow; const double q = std::fabs(v->mFlux); double gross = 0;
        for (int i = 0; i < ns; ++i) {
            const int k = v->mSepIndex[i]; d.sp[k] += (v->mSepBufferExit[i] - v->mSepBufferThru[i]) * fp->mwOf(k); x.check(near(v->mSepBufferExit[i], (*st)[i], 1e-12, 1e-18), fmt("buffer: the multi-separator releases %.12g kmol/s of what it took, it took %.12g", v->mSepBufferExit[i], (*st)[i]));
            if (in < fp->n && !mixed(*fp, in)) x.check(near(v->mSepBufferThru[i], q * v->mSepFraction[i] * src.getMoleFraction(k), 1e-9, 1e-15), fmt("fraction: the multi-separator takes %.12g kmol/s of a flow of %.12g at fraction %.9g", v->mSepBufferThru[i], q * src.getMoleFraction(k), v->mSepFraction[i]));
        }
        double left = q; for (int i = 0; i < ns; ++i) left -= v->mSepBufferThru[i];
        if (q > DBL_EPSILON && left <= DBL_EPSILON) for (int k = 0; k < fp->nt; ++k) { double r = q * const_cast<PolyFluid&>(src).getTraceCompounds()->getMoleFractions()[k] * fp->tcMw(k); for (int i = 0; i < ntc; ++i) if (v->mTcIndex[i] == k) r *= 1 - v->mTcFraction[i]; d.tc[k] -= r; fp->tcDecl[v->mNodeMap[1 - up]][k] += r; x.probe("separated_everything"); }
        for (int i = 0; i < ntc; ++i) { const int k = v->mTcIndex[i]; const double r = q > DBL_EPSILON ? v->mTcFraction[i] * q * const_cast<PolyFluid&>(src).getTraceCompounds()->getMoleFractions()[k] * fp->tcMw(k) : 0; d.tc[k] -= r; fp->tcDecl[v->mNodeMap[v->mTcPort[i]]][k] += r; }
        if (!fp->over) {
            if (in < fp->n && !mixed(*fp, in)) closure(*fp, *cp, x, d);
            // each separation port receives what was assigned to it
            std::map<int, std::vector<double> > want; for (int i = 0; i < ns; ++i) { auto& w = want[v->mNodeMap[v->mSepPort[i]]]; w.resize(12); w[v->mSepIndex[i]] += v->mSepBufferExit[i] * fp->mwOf(v->mSepIndex[i]); } for (int p = 2; p < v->mNumPorts; ++p) want[v->mNodeMap[p]].resize(12);
            for (auto& w : want) if (w.first != v->mNodeMap[0] && w.first != v->mNodeMap[1]) { const Touch& t = fp->rec.t[cp->id][w.first]; for (int k = 0; k < fp->nx; ++k) x.check(near(t.inSp[k], w.second[k], 1e-9, 1e-15), fmt("port: the multi-separator gives node %d %.12g kg/s of species %d, its ports there are due %.12g", w.first, t.inSp[k], k, w.second[k])); }
            std::map<int, double> src2, got; for (int p = 2; p < v->mNumPorts; ++p) { src2[p] = 0; for (int i = 0; i < ns; ++i) if (v->mSepPort[i] == p) src2[p] += v->mSepBufferExit[i]; x.check(near(v->mSourceVector[p], src2[p], 1e-9, 1e-16), fmt("source: the multi-separator tells the solver %.12g kmol/s at port %d, it gives %.12g", v->mSourceVector[p], p, src2[p])); }
        }
        (void)gross; x.state((uint64_t)(cp->kind * 1000 + ns + ntc * 4 + (up == 1) * 16)); if (q > 1e-12) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) { switch (what % 3) { case 0: faultCommon(v, val, x); break; case 1: if (ns) { v->setSeparationFraction(ft[(int)(std::fabs(val) * 50) % ns], clamp(0, val, 1)); x.fault("fraction_command"); } break; default: if (ntc) { v->setTcFraction(tt[(int)(std::fabs(val) * 50) % ntc], clamp(0, val, 1)); x.fault("fraction_command"); } } };
}

/// Crew: what is consumed and produced follows the head counts, is limited by the oxygen there, and reaches the cabin.
template <class T> void crewLaws(SrcNet& f, Comp& c, T* v, int states, const std::vector<double>& rate, const std::vector<std::pair<int, double> >& perCrewSp, const std::vector<std::pair<int, double> >& perCrewTc) {
    Comp* cp = &c; SrcNet* fp = &f; auto st = std::make_shared<double>(0); c.state = st; for (int i = 0; i < states; ++i) *st += v->mNCrew[i];
    c.post = [=](Ctx& x) {
        const int o2 = fp->idx(FP::GUNNS_O2), co2 = fp->idx(FP::GUNNS_CO2), h2o = fp->idx(FP::GUNNS_H2O), node = v->mNodeMap[1]; double want[4] = {0, 0, 0, 0}, crew = 0;
        for (int i = 0; i < states; ++i) { crew += v->mNCrew[i]; x.check(v->mNCrew[i] >= 0, "crew: a negative head count"); for (int k = 0; k < 4; ++k) want[k] += v->mNCrew[i] * rate[i * 4 + k]; }
        x.check(near(crew, *st, 1e-9, 1e-9), fmt("crew: %.12g people became %.12g in transitions", *st, crew));
        const double avail = fp->before[node]->getMassFraction(o2) * fp->m0[node] / fp->dt; const double o = std::min(want[0], avail), b = blk(v);
        x.check(near(v->mConsumedO2, o, 1e-9, 1e-15), fmt("oxygen: %s consumes %.12g kg/s, the crew needs %.12g and %.12g is there", KN[cp->kind], v->mConsumedO2, want[0], avail));
        Decl d; double net = want[1] + want[2] - o; d.sp[o2] -= o; d.sp[co2] += want[1]; d.sp[h2o] += want[2]; for (auto& p : perCrewSp) { d.sp[p.first] += p.second * crew; net += p.second * crew; } for (auto& p : perCrewTc) d.tc[p.first] += p.second * crew;
        if (net < 1e-12) { x.probe("crew_net_zero"); return; }
        double mol = 0, absMol = 0; for (int k = 0; k < fp->nx; ++k) { d.sp[k] *= b; mol += d.sp[k] / fp->mwOf(k); absMol += std::fabs(d.sp[k]) / fp->mwOf(k); } for (double& t : d.tc) t *= b;
        if (mol < 0.02 * absMol) { x.probe("crew_net_moles_zero"); return; }
        if (!fp->over) { closure(*fp, *cp, x, d, 1); const double q = fp->rec.t[cp->id][node].heat; x.check(near(q, want[3], 1e-9, 1e-12), fmt("heat: %s gives %.12g W, the crew makes %.12g W", KN[cp->kind], q, want[3])); }
        x.state((uint64_t)(cp->kind * 1000 + (o < want[0]) + (b < 1) * 2)); x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) {
        if (what % 4 == 0) { faultCommon(v, val, x); return; }
        const int a = what % (states + 1), b = (int)(std::fabs(val) * 100) % states; const double nmb = std::fabs(val) * 5; double have = 0; for (int i = 0; i < states; ++i) have += v->mNCrew[i]; if (a == states) { *st += nmb; }      // from outside
        v->transition(val < -0.4 ? -1 : nmb, (typename T::MetabolicType)a, (typename T::MetabolicType)b); if (a == states && val < -0.4) *st -= nmb; x.fault("crew_transition");
    };
}
struct CrewRates { double o2, co2, h2o, heat; };
void addCrew(SrcNet& f, Comp& c) {
    if (!f.has(FP::GUNNS_O2) || !f.has(FP::GUNNS_CO2) || !f.has(FP::GUNNS_H2O)) { f.comps.pop_back(); return; }
    const double s = std::pow(10, -7 + 3.5 * c.u[1]), o = s, co = 1.1 * s * (0.5 + c.u[2]), h = 1.5 * s * (0.5 + 2 * c.u[3]), q = 1e5 * s; auto n = [&](int i) { return std::floor(6 * std::fmod(c.u[4] + 0.27 * i, 1.0)); };
    std::vector<double> r; std::vector<std::pair<int, double> > sp, tc; auto put = [&](double k) { r.push_back(o * k); r.push_back(co * k); r.push_back(h * k); r.push_back(q * k); }; auto trace = [&](double base, bool both, FP::FluidType ft, CC::Type t, double scale) { const double v = base * scale; if (both && f.has(ft)) sp.push_back({f.idx(ft), v}); else if (f.tcIdx(t) >= 0) tc.push_back({f.tcIdx(t), v}); return v; };
    if (c.kind == METAB1) {
        auto* v = f.make<GunnsFluidMetabolic>(c); const double k[4] = {1, 0.5 + 0.5 * c.u[5], 1 + c.u[6], 1 + c.u[6] + 2 * c.u[7]}; for (double x : k) put(x);
        v->initialize(GunnsFluidMetabolicConfigData(c.name, &f.list, o, co, h, q, k[1], k[2], k[3]), GunnsFluidMetabolicInputData(false, 0, 0, n(0), n(1), n(2), n(3)), f.links, f.n, c.ports[1]); crewLaws(f, c, v, 4, r, sp, tc); return;
    }
    auto common = [&](auto& cd) {
        cd.mO2ConsumptionRate_Nominal = o; cd.mCO2ProductionRate_Nominal = co; cd.mH2OProductionRate_Nominal = h; cd.mHeatProductionRate_Nominal = q; cd.mO2ConsumptionRate_Sleep = o * 0.6; cd.mCO2ProductionRate_Sleep = co * 0.6; cd.mH2OProductionRate_Sleep = h * 0.6; cd.mHeatProductionRate_Sleep = q * 0.6;
        put(1); put(0.6);
#define REC(i, k) cd.mO2ConsumptionRate_Recovery##i = o * k; cd.mCO2ProductionRate_Recovery##i = co * k; cd.mH2OProductionRate_Recovery##i = h * k; cd.mHeatProductionRate_Recovery##i = q * k; put(k);
        REC(0, 1.2) REC(1, 1.4) REC(2, 1.6) REC(3, 1.8)
    };
    auto traces = [&](auto& cd) {
        const double b = s * 1e-3 * c.u[8];
#define TRC(z, t) cd.m##z##ProductionRate = trace(b, false, FP::NO_FLUID, CC::t, 1 + 0.1 * (double)sizeof(#z));
        TRC(CH4O, CH4O) TRC(C2H6O, C2H6O) TRC(CH2O, CH2O) TRC(C6H6, C6H6) TRC(C3H6O, C3H6O)
        cd.mC4H10OProductionRate = cd.mC2H4OProductionRate = cd.mC7H8ProductionRate = cd.mC8H10ProductionRate = cd.mCH2CL2ProductionRate = 0;
        const double g = s * 0.02 * c.u[9]; cd.mNH3ProductionRate = trace(g, true, FP::GUNNS_NH3, CC::NH3, f.has(FP::GUNNS_NH3) ? 1 : 1e-2); cd.mCOProductionRate = trace(g, true, FP::GUNNS_CO, CC::CO, f.has(FP::GUNNS_CO) ? 2 : 2e-2); cd.mH2ProductionRate = trace(g, true, FP::GUNNS_H2, CC::H2, f.has(FP::GUNNS_H2) ? 0.1 : 1e-3); cd.mCH4ProductionRate = trace(g, true, FP::GUNNS_CH4, CC::CH4, f.has(FP::GUNNS_CH4) ? 0.5 : 5e-3);
    };
    if (c.kind == METAB2) {
        auto* v = f.make<GunnsFluidMetabolic2>(c); GunnsFluidMetabolic2ConfigData cd(c.name, &f.list); common(cd);
#define EXE(S, i, k) cd.mO2ConsumptionRate_##S##i = o * k; cd.mCO2ProductionRate_##S##i = co * k; cd.mH2OProductionRate_##S##i = h * k; cd.mHeatProductionRate_##S##i = q * k; put(k);
        EXE(Exercise, 0, 2.5) EXE(Exercise, 1, 3.5) traces(cd);
        v->initialize(cd, GunnsFluidMetabolic2InputData(false, 0, 0, n(0), n(1), n(2), n(3), n(4), n(5), n(6), n(7)), f.links, f.n, c.ports[1]); crewLaws(f, c, v, 8, r, sp, tc);
    } else {
        auto* v = f.make<GunnsFluidMetabolic3>(c); GunnsFluidMetabolic3ConfigData cd(c.name, &f.list); common(cd);
        EXE(Aerobic, 0, 2.5) EXE(Aerobic, 1, 3.5) EXE(Resistive, 0, 2.1) EXE(Resistive, 1, 2.2) EXE(Resistive, 2, 2.3) EXE(Resistive, 3, 2.4) traces(cd);
        v->initialize(cd, GunnsFluidMetabolic3InputData(false, 0, 0, n(0), n(1), n(2), n(3), n(4), n(5), n(6), n(7), n(8), n(9), n(10), n(11)), f.links, f.n, c.ports[1]); crewLaws(f, c, v, 12, r, sp, tc);
    }
}

void addSource(SrcNet& f, Comp& c) {
    struct St { double w[12], t[4]; std::unique_ptr<GunnsFluidTraceCompoundsInputData> tci; std::unique_ptr<PolyFluidInputData> in; bool ov; double demand, T, heat, sp[12], tc[4]; St() : ov(false), demand(0), T(0), heat(0) { for (double& v : sp) v = 0; for (double& v : tc) v = 0; } }; auto st = std::make_shared<St>(); c.state = st; Comp* cp = &c; SrcNet* fp = &f;
    double s = 0; for (int k = 0; k < f.nx; ++k) s += st->w[k] = 0.05 + std::fmod(c.u[1] * (k + 2.3) * 5, 1.0); for (int k = 0; k < f.nx; ++k) st->w[k] /= s; for (int k = 0; k < 4; ++k) st->t[k] = 1e-3 * std::fmod(c.u[2] * (k + 1.9) * 3, 1.0);
    const bool flip = c.u[3] > 0.7, tcOnly = f.nt && c.u[4] > 0.8; st->tci.reset(new GunnsFluidTraceCompoundsInputData(st->t)); st->in.reset(new PolyFluidInputData(260 + 80 * c.u[5], 100, 0, 0, st->w, f.nt ? st->tci.get() : 0)); st->demand = (c.u[6] > 0.8 ? -1 : 1) * std::pow(10, -7 + 4 * c.u[7]);
    auto* v = f.make<GunnsFluidSourceBoundary>(c); v->initialize(GunnsFluidSourceBoundaryConfigData(c.name, &f.list, flip, tcOnly), GunnsFluidSourceBoundaryInputData(false, 0, st->demand, st->in.get()), f.links, c.ports[0]);
    c.post = [=](Ctx& x) {
        const int node = v->mNodeMap[0]; const double sign = (flip ? -1 : 1), b = blk(v); Decl d; double net = 0, mol = 0, absMol = 0, T = v->mInternalFluid->getTemperature();
        if (st->ov) { for (int k = 0; k < fp->nx; ++k) { d.sp[k] = tcOnly ? 0 : sign * b * st->sp[k]; net += d.sp[k]; } for (int k = 0; k < fp->nt; ++k) fp->tcDecl[node][k] += sign * st->tc[k]; }
        else { const double q = sign * b * st->demand; for (int k = 0; k < fp->nx; ++k) d.sp[k] = tcOnly ? 0 : q * st->w[k]; net = q; for (int k = 0; k < fp->nt; ++k) if (tcOnly) fp->tcDecl[node][k] += q * st->t[k]; else d.tc[k] = q * st->t[k]; }
        for (int k = 0; k < fp->nx; ++k) { mol += d.sp[k] / fp->mwOf(k); absMol += std::fabs(d.sp[k]) / fp->mwOf(k); }
        if (!fp->over) {
            if (absMol == 0 || (std::fabs(mol) > 0.02 * absMol && mol * net > 0)) { closure(*fp, *cp, x, d); x.check(near(v->mSourceVector[0], mol, 1e-9, 1e-16), fmt("source: the source boundary tells the solver %.12g kmol/s, it adds %.12g", v->mSourceVector[0], mol)); }
            const double h = fp->rec.t[cp->id][node].heat, e = st->ov ? sign * st->heat : 0; x.check(near(h, e, 1e-9, 1e-12), fmt("heat: the source boundary gives %.12g W, it was told %.12g W", h, e)); (void)T;
        }
        x.state((uint64_t)(cp->kind * 1000 + st->ov + flip * 2 + tcOnly * 4 + (net < 0) * 8)); if (absMol > 0) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) {
        switch (what % 4) { case 0: faultCommon(v, val, x); break; case 1: st->demand = val * std::pow(10, -7 + 4 * c.u[7]); v->setFlowDemand(st->demand); x.fault("demand_step"); break;
        case 2: st->ov = val > 0; v->mOverrideMode = st->ov; if (!st->ov) { v->mInternalFluid->setMassAndMassFractions(0, st->w); v->setFlowDemand(st->demand); } x.fault("override_switch"); /* fall through */
        default: for (int k = 0; k < fp->nx; ++k) v->mOverrideFlowRates[k] = st->sp[k] = std::pow(10, -7 + 4 * cp->u[7]) * (std::fmod(std::fabs(val) * (k + 1.1) * 13, 1.0) - (cp->u[8] > 0.6 ? 0.4 : 0.0)); for (int k = 0; k < fp->nt; ++k) v->mOverrideTcFlowRates[k] = st->tc[k] = 1e-8 * std::fmod(std::fabs(val) * (k + 1.3) * 11, 1.0); v->mOverrideTemperature = val < 0.2 ? 0 : 270 + 60 * val; v->mOverrideHeat = st->heat = 10 * val; x.fault("override_rates"); }
    };
}
void addFire(SrcNet& f, Comp& c) {
    if (!f.has(FP::GUNNS_O2) || !f.has(FP::GUNNS_CO2) || !f.has(FP::GUNNS_H2O)) { f.comps.pop_back(); return; }
    struct St { double tc[4], heat; bool on; St() : heat(0), on(false) {} }; auto st = std::make_shared<St>(); c.state = st; Comp* cp = &c; SrcNet* fp = &f; for (int k = 0; k < 4; ++k) st->tc[k] = 1e-12 * std::fmod(c.u[1] * (k + 1.9) * 3, 1.0);
    const double o = 1e-7 * c.u[2], co = 1e-7 * (0.5 + c.u[3]), h = 1e-7 * (0.5 + c.u[4]), minO = 20 * c.u[5]; auto* v = f.make<GunnsFluidFireSource>(c); v->initialize(GunnsFluidFireSourceConfigData(c.name, &f.list, o, co, h, minO, f.nt ? st->tc : 0), GunnsFluidFireSourceInputData(false, 0, false, 0), f.links, c.ports[0]);
    c.pre = [=](Ctx&) { st->on = v->mMalfFireFlag; };
    c.post = [=](Ctx& x) {
        const int node = v->mNodeMap[0], io = fp->idx(FP::GUNNS_O2); const double pp = fp->before[node]->getPartialPressure(FP::GUNNS_O2); const bool burn = st->on && pp >= minO; const double q = burn ? v->mMalfFireHeat : 0, b = blk(v); Decl d;
        if (!near(pp, minO, 1e-9, 1e-9)) x.check(v->mMalfFireFlag == burn, fmt("fire: a fire %s with %.9g kPa oxygen, it needs %.9g", v->mMalfFireFlag ? "burns on" : "went out", pp, minO));
        d.sp[io] -= b * o * q; d.sp[fp->idx(FP::GUNNS_CO2)] += b * co * q; d.sp[fp->idx(FP::GUNNS_H2O)] += b * h * q; for (int k = 0; k < fp->nt; ++k) d.tc[k] += b * st->tc[k] * q;
        double mol = 0, absMol = 0; for (int k = 0; k < fp->nx; ++k) { mol += d.sp[k] / fp->mwOf(k); absMol += std::fabs(d.sp[k]) / fp->mwOf(k); }
        if (!fp->over && !near(pp, minO, 1e-9, 1e-9) && (absMol == 0 || (mol > 0.02 * absMol && std::fabs(co + h - o) > 0.02 * (co + h + o)))) closure(*fp, *cp, x, d);
        x.state((uint64_t)(cp->kind * 1000 + burn + st->on * 2)); if (burn) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 3 == 0) faultCommon(v, val, x); else { v->setMalfFire(val > 0, 5000 * std::fabs(val)); x.fault("fire_malfunction"); } };
}
void addRedox(SrcNet& f, Comp& c) {
    if (!f.has(FP::GUNNS_O2) || !f.has(FP::GUNNS_H2) || !f.has(FP::GUNNS_H2O)) { f.comps.pop_back(); return; }
    auto* v = f.make<GunnsFluidSimpleH2Redox>(c); Comp* cp = &c; SrcNet* fp = &f; const int cells = 1 + (int)(50 * c.u[1]); const double rate = 1e-8 * (0.5 + c.u[2]), eff = 0.3 + 0.7 * c.u[3]; auto cur = std::make_shared<double>((c.u[4] - 0.5) * 100); c.state = cur;
    GunnsFluidSimpleH2RedoxConfigData cd(c.name, &f.list, cells, 1.2, rate, eff); v->initialize(cd, GunnsFluidSimpleH2RedoxInputData(false, 0, *cur, false), f.links, c.ports[0], c.ports[1]);
    c.post = [=](Ctx& x) {
        const int h2 = fp->idx(FP::GUNNS_H2), o2 = fp->idx(FP::GUNNS_O2), w = fp->idx(FP::GUNNS_H2O); const double e = clamp(DBL_EPSILON, eff * blk(v), 1); double m = -*cur * rate * cells; m = *cur > 0 ? m / e : m * e; if (v->mTrippedOff || std::fabs(m) < 100 * DBL_EPSILON) m = 0;
        const double n = m / fp->mwOf(h2); Decl d; d.sp[h2] = m; d.sp[o2] = 0.5 * n * fp->mwOf(o2); d.sp[w] = -n * fp->mwOf(w);
        if (!fp->over) { closure(*fp, *cp, x, d); const CompNet::Net a = fp->at(*cp, 0), b = fp->at(*cp, 1); if (v->mNodeMap[0] != v->mNodeMap[1]) { x.check(near(a.sp[h2], d.sp[h2], 1e-9, 1e-15) && near(a.sp[w], d.sp[w], 1e-9, 1e-15) && near(b.sp[o2], d.sp[o2], 1e-9, 1e-15), "port: the redox stack moves a reactant at the wrong port"); } }
        x.check(near(v->mSourceVector[0], 0, 0, 1e-16) && near(v->mSourceVector[1], 0.5 * n, 1e-9, 1e-18), fmt("source: the redox stack tells the solver %.9g and %.9g kmol/s", v->mSourceVector[0], v->mSourceVector[1]));
        x.state((uint64_t)(cp->kind * 1000 + (n > 0) + (n < 0) * 2 + v->mTrippedOff * 4)); if (n != 0) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) { switch (what % 3) { case 0: faultCommon(v, val, x); break; case 1: *cur = 100 * val; v->setCurrent(*cur); x.fault("current_step"); break; default: v->mTrippedOff = val > 0.7; x.fault("trip_command"); } };
}
void addBed(SrcNet& f, Comp& c) {
    auto* v = f.make<GunnsFluidSorptionBed>(c); Comp* cp = &c; SrcNet* fp = &f; auto keep = std::make_shared<GunnsFluidSorptionBedConfigData>(c.name, &f.list, c.u[0]); GunnsFluidSorptionBedConfigData& cd = *keep; GunnsFluidSorptionBedInputData in(false, 0, 260 + 80 * c.u[1]); const int segs = 1 + (int)(c.u[2] * 3.99);
    SorbantProperties* cust = 0; if (c.u[3] > 0.6) { cust = cd.addCustomSorbant(1000, 0.4, 800); const CC::Type t[4] = {CC::NH3, CC::CO, CC::C2H6O, CC::O2}; std::vector<SorbateInteractingCompounds> off(1); off[0].mCompound = CC::H2O; off[0].mInteraction = 0.5; for (int i = 0; i < 4; ++i) if (c.u[4] * 4 > i) cust->addSorbate(t[i], 0, i == 0 && c.u[5] > 0.5 ? &off : 0, 1e-5, 1e-6, 3e3, 0.3, -10, -30, 0.01); }
    for (int i = 0; i < segs; ++i) { const double vol = std::pow(10, -3 + 2 * std::fmod(c.u[6] + 0.3 * i, 1.0)); if (cust && i % 2 == 0) cd.addSegment(cust, vol, 0.1 + 5 * c.u[7]); else cd.addSegment((SorbantProperties::Type)((i + (int)(c.u[8] * 50)) % 5), vol, 0.1 + 5 * c.u[7]); in.addSegmentSorbateLoading(i, CC::H2O, 2 * std::fmod(c.u[9] + i * 0.4, 1.0)); in.addSegmentSorbateLoading(i, CC::CO2, std::fmod(c.u[10] + i * 0.4, 1.0)); }
    v->initialize(cd, in, f.links, c.ports[0], c.ports[1]);
    auto st = std::make_shared<std::vector<double> >(); c.state = st; f.keep.push_back(keep);
    c.pre = [=](Ctx&) { st->clear(); for (unsigned i = 0; i < v->mNSegments; ++i) for (unsigned j = 0; j < v->mSegments[i].getNSorbates(); ++j) st->push_back(v->mSegments[i].mSorbates[j].mLoading); };
    c.post = [=](Ctx& x) {
        size_t z = 0; double any = 0; std::map<int, double> spec, tr, off; std::map<int, int> both; Decl d; const double q = std::fabs(v->mFlowRate);
        for (unsigned i = 0; i < v->mNSegments; ++i) for (unsigned j = 0; j < v->mSegments[i].getNSorbates(); ++j) {
            auto& s = v->mSegments[i].mSorbates[j]; const int a = s.getFluidIndexes()->mFluid, b = s.getFluidIndexes()->mTc; const double vol = v->mSegments[i].computeEffectiveSorbantVolume(), r = (q <= 1e-9 || v->mNodes[v->determineSourcePort(v->mFlux, 0, 1)]->getOutflow()->getDensity() <= DBL_EPSILON) && s.mLoading == (*st)[z] ? 0 : s.mAdsorptionRate, mw = s.getProperties()->getCompound()->mMWeight; any += std::fabs(r);
            x.check(s.mLoading >= 0, fmt("loading: a sorbate holds %.9g kg*mol/m3", s.mLoading)); if (q > 1e-9) x.check(near((s.mLoading - (*st)[z]) * vol, r * fp->dt, 1e-8, 1e-15 + 1e-13 * s.mLoading * vol), fmt("loading: a sorbate's load changed by %.12g kmol, it declares %.12g", (s.mLoading - (*st)[z]) * vol, r * fp->dt));
            ++z; if (a >= 0) spec[a] += r * mw; else tr[b] += r * mw; if (a >= 0 && b >= 0) both[a] = b;
            if (r > DBL_EPSILON) { auto* oc = s.getProperties()->getOffgasCompounds(); auto* oi = s.getOffgasIndexes(); for (unsigned k = 0; k < oc->size(); ++k) { const double g = r * oc->at(k).mInteraction; if (oi->at(k).mFluid >= 0) spec[oi->at(k).mFluid] -= g * fp->mwOf(oi->at(k).mFluid); else if (oi->at(k).mTc >= 0) tr[oi->at(k).mTc] -= g * fp->tcMw(oi->at(k).mTc); } }
        }
        const int sink = v->mNodeMap[1 - v->determineSourcePort(v->mFlux, 0, 1)]; const bool carried = fp->rec.t[cp->id][sink].in > 0; if (!carried) for (auto& p : tr) { fp->tcDecl[sink][p.first] -= p.second; if (p.second != 0) x.probe("desorbed_into_still_gas"); }
        if (!fp->over && q > 1e-9 && carried) {
            const CompNet::Net s = fp->sum(*cp); double mol = 0; for (auto& p : spec) d.sp[p.first] = -p.second; for (auto& p : tr) d.tc[p.first] = -p.second;
            const double tol = massTol(s, d) + 1e-12 + 1e-6 * s.gross;   // the sorbates' molecular weights and the gases' differ by 2e-7
            for (int k = 0; k < fp->nx; ++k) { double got = s.sp[k]; if (both.count(k)) got += s.tc[both[k]]; x.check(near(got, d.sp[k], 1e-8, tol), fmt("species: the sorption bed changes species %d by %.12g kg/s, its loads say %.12g (flow %.6g)", k, got, d.sp[k], q)); mol += s.sp[k] / fp->mwOf(k); }
            for (int k = 0; k < fp->nt; ++k) { bool skip = false; for (auto& p : both) skip |= p.second == k; if (!skip) x.check(near(s.tc[k], d.tc[k], 1e-8, 1e-11 * s.gross + 1e-12 + 5e-6 * s.grossTc), fmt("trace: the sorption bed changes compound %d by %.12g kg/s, its loads say %.12g (flow %.6g)", k, s.tc[k], d.tc[k], q)); }
            x.check(near(v->mSourceVector[v->mFlux < 0 ? 0 : 1], mol, 1e-7, 1e-12 + 1e-9 * std::fabs(v->mFlux)) && v->mSourceVector[v->mFlux < 0 ? 1 : 0] == 0, fmt("source: the sorption bed tells the solver %.12g kmol/s, it adds %.12g", v->mSourceVector[v->mFlux < 0 ? 0 : 1], mol));
        }
        x.state((uint64_t)(cp->kind * 1000 + (any > 0) + (v->mFlux < 0) * 2 + segs * 4)); if (any > 0) x.probe("exchanged");
    };
    c.event = [=](int what, double val, Ctx& x) { if (what % 2 == 0) faultCommon(v, val, x); else { auto& s = v->mSegments[(int)(std::fabs(val) * 50) % v->mNSegments]; if (s.getNSorbates()) { s.mSorbates[0].mMalfLoadingEquilFlag = val > 0; s.mSorbates[0].mMalfLoadingEquilValue = val; x.fault("loading_malfunction"); } } };
}

void addComp(SrcNet& f, const Op& o, int index) {
    const int kind = std::abs(o.i(0)) % KINDS; f.comps.emplace_back(new Comp); Comp& c = *f.comps.back(); c.kind = kind; c.name = fmt("c%d", index); for (int i = 0; i < 4; ++i) c.ports.push_back(f.node(std::abs(o.i(1 + i)))); for (int i = 0; i < 12; ++i) c.u[i] = i ? clamp(0, o.d(5 + i), 1) : clamp(1e-8, o.d(5), 1.0);
    if (c.ports[0] == c.ports[1]) c.ports[1] = f.node(c.ports[0] + 1);
    switch (kind) { case ADS: case HOTADS: addAds(f, c, kind == HOTADS); break; case MULTIADS: addMultiAds(f, c); break; case REACT: case HOTREACT: addReactor(f, c, kind == HOTREACT); break; case SEPGAS: addSepGas(f, c); break; case MULTISEP: addMultiSep(f, c); break;
    case METAB1: case METAB2: case METAB3: addCrew(f, c); break; case SRCBOUND: addSource(f, c); break; case FIRE: addFire(f, c); break; case REDOX: addRedox(f, c); break; default: addBed(f, c); }
}
/// Every node's content changes by exactly what was recorded going in and out of it.
void nodeLaw(SrcNet& f, Ctx& ctx) {
    for (int i = 0; i < f.n; ++i) {
        if (!(f.nodes[i].getVolume() > 0)) continue; double sp[12] = {0}, tc[4] = {0}, gross = 0, tg[4] = {0}; Comp dummy;
        for (size_t l = 0; l < f.rec.t.size(); ++l) { CompNet::Net r; r.m = r.h = r.mol = r.gross = r.grossH = 0; for (double& v : r.sp) v = 0; for (double& v : r.tc) v = 0; f.add(r, f.rec.t[l][i], i); for (int k = 0; k < f.nx; ++k) { sp[k] += r.sp[k]; gross += std::fabs(r.sp[k]); } for (int k = 0; k < f.nt; ++k) { tc[k] += r.tc[k]; tg[k] += std::fabs(r.tc[k]); } }
        bool low = false; double inMass = 0; for (int k = 0; k < f.nx; ++k) { low |= f.m0[i] * f.before[i]->getMassFraction(k) + sp[k] * f.dt < 1e-9 * f.m0[i]; inMass += sp[k]; }
        for (int k = 0; k < f.nt; ++k) { const double got = f.nodes[i].mTcInflow.mState[k]; ctx.check(near(got, f.tcDecl[i][k], 1e-9, 1e-16), fmt("trace: node %d is given %.12g kg/s of compound %d directly, links declare %.12g", i, got, k, f.tcDecl[i][k])); tc[k] += got; tg[k] += std::fabs(got); }
        if (low || gross * f.dt < 1e-14) { ctx.probe("node_not_judged"); continue; }
        for (int k = 0; k < f.nx; ++k) { const double a = f.m0[i] * f.before[i]->getMassFraction(k), b = f.nodes[i].mContent.getMass() * f.nodes[i].mContent.getMassFraction(k); ctx.check(near(b - a, sp[k] * f.dt, 1e-7, 1e-11 * (f.m0[i] + gross * f.dt) + 1e-13 * f.dt), fmt("node: species %d of node %d changed by %.12g kg, links moved %.12g kg (step %ld, mass %.9g of %.9g, sched %.9g kmol/s)", k, i, b - a, sp[k] * f.dt, f.step, a, f.m0[i], f.nodes[i].mScheduledOutflux)); }
        for (int k = 0; k < f.nt; ++k) { const double a = f.tc0[i][k], b = f.nodes[i].mContent.getTraceCompounds()->getMasses()[k]; if (a + tc[k] * f.dt < 1e-9 * a + 1e-15 * f.m0[i] || std::fabs(f.nodes[i].mInfluxRate * f.dt) < 4e-16) continue;   // an inflow below rounding is not mixed in
            ctx.check(near(b - a, tc[k] * f.dt, 1e-7, 1e-11 * a + 1e-4 * tg[k] * f.dt + 1e-14 * f.m0[i]), fmt("node: compound %d of node %d changed by %.12g kg, links moved %.12g kg (it held %.9g, flows total %.9g)", k, i, b - a, tc[k] * f.dt, a, tg[k])); }
    }
}
void run(const Plan& p, Ctx& ctx) {
    HsTap hs; SrcNet f; std::vector<FP::FluidType> ty; const int mask = std::abs(p.geti("mask", 15)); for (int i = 0; i < 8; ++i) if (mask >> i & 1) ty.push_back(GAS[i]); if (ty.empty()) ty.push_back(FP::GUNNS_N2);
    std::vector<CC::Type> tct; const int t0 = std::abs(p.geti("tc0")); for (int i = 0; i < std::min(4, std::max(0, p.geti("nt"))); ++i) tct.push_back(TCS[(t0 + i) % 8]);
    bool multi = false; for (auto& o : p.ops) multi |= o.kind == "comp" && (std::abs(o.i(0)) % KINDS == MULTIADS || std::abs(o.i(0)) % KINDS == METAB2 || std::abs(o.i(0)) % KINDS == METAB3);                        // this one refuses a compound that is both
    if (multi) for (int j = 0; j < 8; ++j) for (size_t i = 0; i < tct.size(); ) { bool both = false; for (auto t : ty) both |= t == GAS[j] && GASC[j] == tct[i]; if (both) tct.erase(tct.begin() + i); else ++i; }
    f.begin(p, ty, tct); int k = 0; for (auto& o : p.ops) { if (o.kind == "wire") f.conductor(fmt("w%d", k++), f.node(std::abs(o.i(0))), f.node(std::abs(o.i(1))), clamp(0, o.d(2), 1)); if (o.kind == "comp") addComp(f, o, k++); }
    f.finish(p); const long steps = std::min(1500, p.geti("steps", 60));
    for (f.step = 1; f.step <= steps; ++f.step) {
        for (auto& o : p.ops) if (o.kind == "ev" && o.i(0) == f.step) { if (o.i(2) == 9) { f.dt = clamp(1e-3, std::fabs(o.d(3)), 2); ctx.fault("time_step_change"); } else if (!f.comps.empty()) { Comp& c = *f.comps[std::abs(o.i(1)) % f.comps.size()]; if (c.event) c.event(std::abs(o.i(2)), o.d(3), ctx); } }
        f.tcDecl.assign(f.n + 1, std::vector<double>(4, 0.0));
        if (!f.advance(hs, ctx)) break;
        for (auto& c : f.comps) { for (int i = 0; i <= f.n; ++i) ctx.check(finite(f.rec.t[c->id][i].in) && finite(f.rec.t[c->id][i].inH), fmt("finite: the %s moves a flow that is not a number", KN[c->kind])); if (!f.over) f.checkSchedule(*c, ctx); if (c->post) c->post(ctx); }
        if (!f.over) nodeLaw(f, ctx);
        if (f.step % 10 == 0) { double s = 0; for (int i = 0; i < f.n; ++i) s += f.nodes[i].getPotential() * (i + 1); ctx.log(fmt("%ld %.12g", f.step, s)); }
    }
}
void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(3, deep ? 8 : 6), steps = r.irange(20, deep ? 500 : 150); p.set("steps", steps); int mask = r.chance(0.5) ? 14 : 1; for (int i = 0; i < 8; ++i) if (r.chance(0.45)) mask |= 1 << i; p.set("mask", mask); p.set("tc0", r.irange(0, 7)); p.set("nt", r.chance(0.6) ? r.irange(1, 4) : 0);
    p.set("dt", r.pick(std::vector<double>{0.0125, 0.1, 0.1, 0.1, 0.5, 1.0})); p.set("minLinP", r.pick(std::vector<double>{1e-8, 1e-5, 1e-3})); const double tMid = r.range(265, 335), spread = r.chance(0.4) ? 8 : 60, pMid = r.logRange(20, 300), pSp = r.chance(0.3) ? 0.01 : r.chance(0.5) ? 20 : 150;
    for (int i = 0; i < n; ++i) { std::vector<double> a{r.logRange(0.05, 20), clamp(258, tMid + spread * (r.u() - 0.5), 342), std::max(5.0, pMid + pSp * (r.u() - 0.5))}; for (int k = 0; k < 10; ++k) a.push_back(r.chance(0.15) ? 0.0 : r.u() * (r.chance(0.3) ? 0.05 : 1)); for (int k = 0; k < 4; ++k) a.push_back(r.chance(0.2) ? 0.0 : r.logRange(1e-7, 1e-3)); p.add("node", a); }
    for (int i = 0; i + 1 < n; ++i) if (r.chance(0.6)) p.add("wire", {(double)i, (double)i + 1, r.logRange(1e-7, 1e-3)});
    const int m = r.irange(1, deep ? 7 : 4), only = r.chance(0.6) ? r.irange(0, KINDS - 1) : -1;
    for (int i = 0; i < m; ++i) { const int k = only >= 0 && i == 0 ? only : r.irange(0, KINDS - 1); std::vector<double> a{(double)k}; for (int j = 0; j < 4; ++j) a.push_back(r.irange(0, n - 1)); a.push_back(r.logRange(1e-6, 1e-2)); for (int j = 0; j < 11; ++j) a.push_back(r.chance(0.08) ? 0.0 : r.chance(0.08) ? 1.0 : r.u()); p.add("comp", a); }
    const int e = r.irange(0, deep ? 40 : 20); for (int i = 0; i < e; ++i) p.add("ev", {(double)r.irange(1, steps), (double)r.irange(0, 20), r.chance(0.06) ? 9.0 : (double)r.irange(0, 8), r.chance(0.15) ? 0.0 : r.chance(0.15) ? 1.0 : r.range(-0.5, 1)});
}
Register f07({"F07", "distinct = a different network, components, initial state or event schedule; trivial = no component exchanged fluid", "component kind with its mode (exchange direction, limits, flow direction)", {{"sources", 1, gen, run}}, 30000, 1500000,
    {"Gunns solver, fluid nodes and capacitors", "adsorbers (plain, hot, multi), reactors, gas and multi separators, crew metabolism 1-3, source boundary, fire, H2 redox stack, sorption bed"},
    {"health & status manager replaced by a recorder", "nodes' collection methods wrapped to record each link's flows", "operators, crew and malfunctions scripted by the plan"},
    {"Steps in which a node is asked for more fluid than it holds are documented not to conserve and are not judged for conservation"}});
} // namespace
void srcRun(const Plan& p, Ctx& c) { run(p, c); }
void srcGen(Rng& r, Plan& p, bool deep) { gen(r, p, deep); }
} // namespace dst
