// A network of real fluid-aspect nodes and links built from a plan, with ledgers of mass, species, trace
// compounds and enthalpy taken independently of the node integration.
#ifndef DST_FLUIDNET_HH
#define DST_FLUIDNET_HH
#include "common.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidConductor.hh"
#include "core/GunnsFluidPotential.hh"
#include "core/GunnsFluidSource.hh"
#include "core/GunnsFluidFlowController.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/conductor/GunnsFluidValve.hh"
#include "aspects/fluid/conductor/GunnsFluidCheckValve.hh"
#include "aspects/fluid/conductor/GunnsFluidPipe.hh"
#include "aspects/fluid/conductor/GunnsFluidHeatExchanger.hh"
#include "aspects/fluid/conductor/GunnsFluidLeak.hh"
#include "aspects/fluid/conductor/GunnsFluidSimpleQd.hh"
#include "aspects/fluid/conductor/GunnsFluidSensor.hh"
#include "aspects/fluid/conductor/GunnsFluidEqConductor.hh"
#include "aspects/fluid/potential/GunnsGasFan.hh"
#include "aspects/fluid/capacitor/GunnsFluidTank.hh"

namespace dst {

struct FluidNet {
    enum Kind { COND = 0, VALVE, CHECK, PIPE, HX, SENSOR, QD, POT, FAN, SRC, FLOWC, LEAK, SUPPLY, DRAIN, KINDS };
    static const int NX = 8;
    static FluidProperties::FluidType gas(int i) { static const FluidProperties::FluidType t[NX] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_O2, FluidProperties::GUNNS_CO2, FluidProperties::GUNNS_H2O, FluidProperties::GUNNS_H2, FluidProperties::GUNNS_HE, FluidProperties::GUNNS_CH4, FluidProperties::GUNNS_AR}; return t[((i % NX) + NX) % NX]; }
    static FluidProperties::FluidType liquid(int i) { static const FluidProperties::FluidType t[4] = {FluidProperties::GUNNS_WATER, FluidProperties::GUNNS_PG40, FluidProperties::GUNNS_HFE7100, FluidProperties::GUNNS_HFE7000}; return t[((i % 4) + 4) % 4]; }

    int n, nx, nt;
    std::unique_ptr<GunnsFluidNode[]> nodes; GunnsNodeList list; Gunns net;
    std::unique_ptr<DefinedFluidProperties> props; std::unique_ptr<DefinedChemicalCompounds> chem;
    std::unique_ptr<GunnsFluidTraceCompoundsConfigData> tcc; std::unique_ptr<PolyFluidConfigData> cfg;
    std::vector<GunnsBasicLink*> links;                 ///< solver order
    std::vector<std::unique_ptr<GunnsBasicLink> > own;
    struct L { GunnsFluidLink* l; int kind; GunnsFluidConductor* c; };
    std::vector<L> fl;                                  ///< flow links in plan order
    std::vector<GunnsFluidCapacitor*> caps;             ///< per node, 0 if none
    double dt;
    std::function<void(FluidNet&)> extra;               ///< adds further links before the network is initialized

    FluidNet() : n(0), nx(1), nt(0), dt(0.1) {}
    int node(int i) const { return std::min(std::max(i, 0), n - 1); }

    /// op node: {V, T, P, expansion, w0..w(nx-1), tc0..}; op flink: {kind, p0, p1, G, exponent, a, b, expansion}
    void build(const Plan& p) {
        nx = std::min(std::max(p.geti("nx", 2), 1), (int)NX); nt = std::min(std::max(p.geti("nt", 0), 0), 3);
        const bool liq = p.get("liquid") != 0;
        if (liq) nx = 1;
        n = 0; for (auto& o : p.ops) n += o.kind == "node";
        n = std::max(n, 1);
        props.reset(new DefinedFluidProperties); chem.reset(new DefinedChemicalCompounds);
        std::vector<FluidProperties::FluidType> types; const int g0 = p.geti("gas0", 0), gs = p.geti("gasStep", 1) | 1;
        for (int i = 0; i < nx; ++i) types.push_back(liq ? liquid(g0) : gas(g0 + i * gs));
        ChemicalCompound::Type tct[3] = {ChemicalCompound::CH2O, ChemicalCompound::C2H6O, ChemicalCompound::NH3};
        if (nt) tcc.reset(new GunnsFluidTraceCompoundsConfigData(tct, nt, "tc"));
        cfg.reset(new PolyFluidConfigData(props.get(), types.data(), nx, tcc.get()));
        nodes.reset(new GunnsFluidNode[n + 1]);
        list.mNumNodes = n + 1; list.mNodes = nodes.get();
        std::vector<Op> nd; for (auto& o : p.ops) if (o.kind == "node") nd.push_back(o);
        if (nd.empty()) nd.push_back(Op("node", {1.0, 300, 100, 0, 1}));
        std::vector<std::vector<double> > w(n), tc(n); std::vector<std::unique_ptr<GunnsFluidTraceCompoundsInputData> > tci(n); std::vector<std::unique_ptr<PolyFluidInputData> > in(n);
        for (int i = 0; i < n; ++i) {
            double s = 0; w[i].resize(nx); tc[i].assign(3, 0.0);
            for (int k = 0; k < nx; ++k) s += w[i][k] = std::max(0.0, nd[i].d(4 + k, k == 0));
            if (s <= 0) { w[i][0] = 1; s = 1; } for (auto& v : w[i]) v /= s;
            for (int k = 0; k < nt; ++k) tc[i][k] = std::min(1e-2, std::max(0.0, nd[i].d(4 + NX + k)));
            tci[i].reset(new GunnsFluidTraceCompoundsInputData(tc[i].data()));
            in[i].reset(new PolyFluidInputData(nd[i].d(1, 300), nd[i].d(2, 100), 0, 0, w[i].data(), nt ? tci[i].get() : 0));
            nodes[i].initialize("n" + std::to_string(i), cfg.get(), in[i].get());
        }
        nodes[n].initialize("GND", cfg.get());
        net.initializeFluidNodes(list);
        caps.assign(n, 0);
        for (int i = 0; i < n; ++i) if (nd[i].d(0) > 0) {
            GunnsFluidCapacitorConfigData c("cap" + std::to_string(i), &list, nd[i].d(3));
            GunnsFluidCapacitorInputData d(false, 0, nd[i].d(0), in[i].get());
            GunnsFluidCapacitor* x = new GunnsFluidCapacitor; own.emplace_back(x); caps[i] = x; x->initialize(c, d, links, i, n);
        }
        int k = 0;
        for (auto& o : p.ops) if (o.kind == "flink") addLink(k++, o);
        if (extra) extra(*this);
        GunnsConfigData gc("net", p.get("tol", 1e-6), p.get("minLinP", 1e-8), 20, 20);
        net.initialize(gc, links); nodes[n].resetContentState();
        net.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island", 0)));
        dt = p.get("dt", 0.1);
    }
    template <class T, class C, class I> void add(T* x, int kind, const C& c, const I& i, int a, int b, GunnsFluidConductor* cond) { own.emplace_back(x); x->initialize(c, i, links, a, b); fl.push_back(L{x, kind, cond}); }
    void addLink(int k, const Op& o) {
        const int kind = std::abs(o.i(0)) % KINDS; int a = node(o.i(1)), b = node(o.i(2));
        if (kind == LEAK || kind == DRAIN) b = n; if (kind == SUPPLY) { b = a; a = n; }
        if (a == b) { if (kind == LEAK || kind == DRAIN || kind == SUPPLY) return; b = (a + 1) % n; if (a == b) return; }
        const std::string nm = "fl" + std::to_string(k); const double G = std::max(0.0, o.d(3)), ex = std::min(1.0, std::max(0.5, o.d(4, 0.5))), x = o.d(5), y = o.d(6), e = std::min(1.0, std::max(0.0, o.d(7)));
        switch (kind) {
        case COND: { auto* l = new GunnsFluidConductor; add(l, kind, GunnsFluidConductorConfigData(nm, &list, G, e, ex), GunnsFluidConductorInputData(false, 0), a, b, l); break; }
        case VALVE: { auto* l = new GunnsFluidValve; add(l, kind, GunnsFluidValveConfigData(nm, &list, G, e, 0, 0, 0), GunnsFluidValveInputData(false, 0, std::min(1.0, std::fabs(x)), false, 0, 300), a, b, l); break; }
        case CHECK: { auto* l = new GunnsFluidCheckValve; add(l, kind, GunnsFluidCheckValveConfigData(nm, &list, G, e, 0, 0, 0, std::max(0.05, std::fabs(x)), 0.1 * std::fabs(y) + 1e-3, std::fabs(y) + 2e-3), GunnsFluidCheckValveInputData(false, 0, 0, false, 0, 300, false, false, 0), a, b, l); break; }
        case PIPE: { auto* l = new GunnsFluidPipe; add(l, kind, GunnsFluidPipeConfigData(nm, &list, G, e, 2.0 * (std::fabs(x) > 0.5), 0.05, 1e-6), GunnsFluidPipeInputData(false, 0, 255 + 90 * std::fabs(y)), a, b, l); break; }
        case HX: { auto* l = new GunnsFluidHeatExchanger; const int segs = 1 + std::abs((int)(x * 4)); add(l, kind, GunnsFluidHeatExchangerConfigData(nm, &list, G, e, segs), GunnsFluidHeatExchangerInputData(false, 0, 10 * std::fabs(y), 300), a, b, l); break; }
        case SENSOR: { auto* l = new GunnsFluidSensor; add(l, kind, GunnsFluidSensorConfigData(nm, &list, G, e), GunnsFluidSensorInputData(false, 0), a, b, l); break; }
        case QD: { auto* l = new GunnsFluidSimpleQd; add(l, kind, GunnsFluidSimpleQdConfigData(nm, &list, G, e, 0, 0, 0), GunnsFluidSimpleQdInputData(false, 0, x > 0.5 ? GunnsFluidSimpleQd::CONNECTED : GunnsFluidSimpleQd::DISCONNECTED, 300), a, b, l); break; }
        case POT: case SUPPLY: case DRAIN: { auto* l = new GunnsFluidPotential; add(l, kind, GunnsFluidPotentialConfigData(nm, &list, G, e), GunnsFluidPotentialInputData(false, 0, x), a, b, l); break; }
        case FAN: { auto* l = new GunnsGasFan; add(l, kind, GunnsGasFanConfigData(nm, &list, G, e, 1.2, 10000, 1.5, 0, 0, -10000, 0, 0, 0.5, 0.02, 0.5, 1.0, 0, 0, 0, y > 0.5), GunnsGasFanInputData(false, 0, 0, 10000 * std::fabs(x), 300), a, b, l); break; }
        case SRC: { auto* l = new GunnsFluidSource; own.emplace_back(l); l->initialize(GunnsFluidSourceConfigData(nm, &list), GunnsFluidSourceInputData(false, 0, x * 1e-3), links, a, b); fl.push_back(L{l, kind, 0}); break; }
        case FLOWC: { auto* l = new GunnsFluidFlowController; add(l, kind, GunnsFluidFlowControllerConfigData(nm, &list, G, e, 0.5, false), GunnsFluidFlowControllerInputData(false, 0, false, 0, std::fabs(x) * 1e-3), a, b, l); break; }
        case LEAK: { auto* l = new GunnsFluidLeak; add(l, kind, GunnsFluidLeakConfigData(nm, &list, G, e), GunnsFluidLeakInputData(false, 0, x > 0.5, 1e-4 * std::fabs(y), false, 0), a, b, l); break; }
        }
    }
    /// op ev: {step, link, what, value}; what: 0 blockage, 1 setting, 2 fail mode, 3 leak-thru, 4 dt, 5 capacitor volume edit
    bool event(const Op& o, long step, Ctx& ctx) {
        if (o.kind != "ev" || o.i(0) != step) return false;
        const double v = o.d(3); const int what = std::abs(o.i(2)) % 5;
        if (what == 4) { dt = std::min(5.0, std::max(1e-3, std::fabs(v))); ctx.fault("time_step_change"); return true; }
        if (fl.empty()) return true;
        L& x = fl[std::abs(o.i(1)) % fl.size()];
        if (what == 0) { x.l->mMalfBlockageFlag = v > 0; x.l->mMalfBlockageValue = std::min(1.0, std::max(0.0, v)); ctx.fault("blockage_malfunction"); return true; }
        switch (x.kind) {
        case VALVE: if (what == 3) { static_cast<GunnsFluidValve*>(x.l)->setMalfLeakThru(v > 0.1, std::fabs(v) * 1e-4); ctx.fault("leak_through_malfunction"); } else { static_cast<GunnsFluidValve*>(x.l)->setPosition(std::min(1.0, std::fabs(v))); ctx.fault("valve_command"); } break;
        case CHECK: { auto* c = static_cast<GunnsFluidCheckValve*>(x.l); if (what == 1) c->setMalfStuck(v > 0.3); else if (what == 2) c->setMalfFailTo(v > 0.3, std::min(1.0, std::fabs(v))); else c->setMalfLeakThru(v > 0.3, std::fabs(v) * 1e-5); ctx.fault("check_valve_malfunction"); break; }
        case PIPE: static_cast<GunnsFluidPipe*>(x.l)->setWallTemperature(255 + 90 * std::min(1.0, std::fabs(v))); ctx.fault("wall_temperature_step"); break;
        case HX: { auto* h = static_cast<GunnsFluidHeatExchanger*>(x.l); if (what == 1) h->setMalfHxDegrade(v > 0.3, std::min(1.0, std::fabs(v))); else for (int s = 0; s < h->mNumSegs; ++s) h->setSegTemperature(s, 255 + 90 * std::min(1.0, std::fabs(v))); ctx.fault("hx_disturbance"); break; }
        case QD: static_cast<GunnsFluidSimpleQd*>(x.l)->setState(v > 0.5 ? GunnsFluidSimpleQd::CONNECTED : GunnsFluidSimpleQd::DISCONNECTED); ctx.fault("qd_command"); break;
        case POT: case SUPPLY: case DRAIN: static_cast<GunnsFluidPotential*>(x.l)->setSourcePressure(x.kind == SUPPLY ? std::fabs(v) * 300 : x.kind == DRAIN ? -std::fabs(v) * 50 : v * 20); ctx.fault("source_pressure_step"); break;
        case FAN: static_cast<GunnsGasFan*>(x.l)->setMotorSpeed(std::fabs(v) * 10000); ctx.fault("fan_speed_step"); break;
        case SRC: static_cast<GunnsFluidSource*>(x.l)->setFlowDemand(v * 1e-3); ctx.fault("flow_demand_step"); break;
        case FLOWC: static_cast<GunnsFluidFlowController*>(x.l)->setFlowRateCommand(std::fabs(v) * 1e-3); ctx.fault("flow_demand_step"); break;
        case LEAK: { auto* k = static_cast<GunnsFluidLeak*>(x.l); if (what == 2) k->setMalfLeakRate(v > 0.3, std::fabs(v) * 1e-3); else k->setMalfLeakHole(v > 0.1, std::fabs(v) * 1e-4); ctx.fault("leak_malfunction"); break; }
        default: break;
        }
        return true;
    }
    double mass(int i) const { return nodes[i].mContent.getMass(); }
    double species(int i, int k) const { return nodes[i].mContent.getMass() * nodes[i].mContent.getMassFraction(k); }
    double tcMass(int i, int k) const { return nodes[i].mContent.getTraceCompounds()->getMasses()[k]; }
    double enthalpy(int i) const { return nodes[i].mContent.getMass() * nodes[i].mContent.getSpecificEnthalpy(); }
    /// Fluid the link moves: its own when it has one, else that of the node it takes from.
    const PolyFluid* moved(const L& x) const {
        if (x.l->mInternalFluid) return x.l->mInternalFluid;
        const int s = x.l->mFlux >= 0 ? 0 : 1, i = x.l->mNodeMap[s], j = x.l->mNodeMap[1 - s];
        return i < n ? const_cast<GunnsFluidNode&>(nodes[i]).getOutflow() : before[j].get();      // ground has no fluid of its own: the receiver's, as it was
    }
    std::vector<std::unique_ptr<PolyFluid> > before;    ///< node contents before the step
    void snapshot() { before.resize(n); for (int i = 0; i < n; ++i) { if (!before[i]) before[i].reset(new PolyFluid(nodes[i].mContent, "before", true)); before[i]->setState(&nodes[i].mContent); } }
    double tcMw(int k) const { return tcc->mCompounds[k]->mMWeight; }
};

struct FluidGen { int kindsMask; double expansion; bool liquidOk; bool zeroVol; FluidGen() : kindsMask((1 << FluidNet::LEAK) - 1), expansion(0.5), liquidOk(false), zeroVol(true) {} };

inline void genFluid(Rng& r, Plan& p, const FluidGen& g, bool deep) {
    const int n = r.irange(2, deep ? 9 : 6); const bool liq = g.liquidOk && r.chance(0.25);
    p.set("liquid", liq); p.set("nx", liq ? 1 : r.irange(1, 4)); p.set("nt", r.chance(0.5) ? r.irange(1, 3) : 0); p.set("gas0", r.irange(0, 7)); p.set("gasStep", r.irange(0, 3));
    p.set("island", r.irange(0, 1) * 2); p.set("dt", r.pick(std::vector<double>{0.0125, 0.1, 0.1, 0.1, 0.5, 1.0})); p.set("minLinP", r.pick(std::vector<double>{1e-8, 1e-5, 1e-3}));
    const bool withExp = r.chance(g.expansion); const int zeros = g.zeroVol ? r.irange(0, n - 1) : 0;
    for (int i = 0; i < n; ++i) {
        std::vector<double> a{i && i <= zeros && r.chance(0.7) ? 0.0 : r.logRange(1e-2, 10), r.range(255, 345), r.logRange(5, 400), withExp && r.chance(0.7) ? r.u() : 0.0};
        if (liq) a[2] = r.range(90, 300);
        for (int k = 0; k < FluidNet::NX; ++k) a.push_back(r.chance(0.15) ? 0.0 : r.u());
        for (int k = 0; k < 3; ++k) a.push_back(r.chance(0.2) ? 0.0 : r.logRange(1e-7, 1e-3));
        p.add("node", a);
    }
    std::vector<int> kinds; for (int k = 0; k < FluidNet::KINDS; ++k) if (g.kindsMask >> k & 1) kinds.push_back(k);
    if (liq) kinds.erase(std::remove(kinds.begin(), kinds.end(), (int)FluidNet::FAN), kinds.end());
    const int m = r.irange(n - 1, n + 4);
    for (int k = 0; k < m; ++k) {
        const int a = k < n - 1 ? k : r.irange(0, n - 1), b = k < n - 1 ? k + 1 : r.irange(0, n - 1); const bool sw = r.chance(0.5);
        p.add("flink", {(double)r.pick(kinds), (double)(sw ? a : b), (double)(sw ? b : a), r.logRange(1e-7, liq ? 1e-4 : 1e-2), r.chance(0.7) ? 0.5 : r.range(0.5, 1), r.range(-1, 1), r.range(-1, 1), withExp && r.chance(0.5) ? r.u() : 0.0});
    }
}
inline void genFluidEvents(Rng& r, Plan& p, int steps, int count) {
    for (int i = 0; i < count; ++i) p.add("ev", {(double)r.irange(1, steps), (double)r.irange(0, 20), r.chance(0.35) ? 0.0 : r.chance(0.06) ? 4.0 : (double)r.irange(1, 3), r.chance(0.1) ? 0.0 : r.chance(0.2) ? 1.0 : r.range(-0.5, 1)});
}
} // namespace dst
#endif
