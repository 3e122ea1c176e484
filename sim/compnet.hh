// A fluid network whose nodes record, per link, everything a component does to them: influxes with their
// mixture, scheduled and reported outfluxes, and direct heat.  Component laws are judged from that record.
#ifndef DST_COMPNET_HH
#define DST_COMPNET_HH
#include "common.hh"
#include "trace.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidConductor.hh"
#include "core/GunnsFluidUtils.hh"

namespace dst {

/// Everything one link did to one node in one step.
struct Touch {
    double in, inH, out, outMol, heat; double inSp[12], inTc[4];
    Touch() { clear(); }
    void clear() { in = inH = out = outMol = heat = 0; for (double& v : inSp) v = 0; for (double& v : inTc) v = 0; }
};
struct Recorder {
    int cur, n, nx, nt; std::vector<std::vector<Touch> > t; const void* base;     ///< t[link][node]
    Recorder() : cur(0), n(0), nx(0), nt(0), base(0) {}
    Touch& at(const void* node);
    void clear() { for (auto& a : t) for (auto& b : a) b.clear(); }
};
inline Recorder*& recorder() { static Recorder* r = 0; return r; }

class RecNode : public GunnsFluidNode {
  public:
    virtual void collectInflux(const double rate, const PolyFluid* fluid = 0) {
        if (Recorder* r = recorder()) {
            Touch& t = r->at(this); t.in += rate; t.inH += rate * fluid->getSpecificEnthalpy();
            for (int k = 0; k < r->nx; ++k) t.inSp[k] += rate * fluid->getMassFraction(k);
            if (r->nt && fluid->getMWeight() != 0) { const GunnsFluidTraceCompounds* tc = const_cast<PolyFluid*>(fluid)->getTraceCompounds(); if (tc) for (int k = 0; k < r->nt; ++k) t.inTc[k] += (std::fabs(rate) < DBL_EPSILON ? fluid->getFlowRate() : rate) / fluid->getMWeight() * tc->getMoleFractions()[k] * tc->mConfig->mCompounds[k]->mMWeight; }
        }
        GunnsFluidNode::collectInflux(rate, fluid);
    }
    virtual void collectOutflux(const double rate) { if (Recorder* r = recorder()) r->at(this).out += rate; GunnsFluidNode::collectOutflux(rate); }
    virtual void scheduleOutflux(const double rate) { if (Recorder* r = recorder()) r->at(this).outMol += rate; GunnsFluidNode::scheduleOutflux(rate); }
    virtual void collectHeatFlux(const double q) { if (Recorder* r = recorder()) r->at(this).heat += q; GunnsFluidNode::collectHeatFlux(q); }
};
static_assert(sizeof(RecNode) == sizeof(GunnsFluidNode), "the recording node must have the layout of a node");
inline Touch& Recorder::at(const void* node) { size_t i = ((const char*)node - (const char*)base) / sizeof(RecNode); if (i > (size_t)n) i = n; return t[cur][i]; }

/// Attributes node calls to the link making them.
template <class T> struct Tap : public T {
    int tapId; Tap() : tapId(0) {}
    struct Mark { int old; explicit Mark(int id) : old(0) { if (recorder()) { old = recorder()->cur; recorder()->cur = id; } } ~Mark() { if (recorder()) recorder()->cur = old; } };
    virtual void step(const double dt) { Mark m(tapId); T::step(dt); }
    virtual void computeFlows(const double dt) { Mark m(tapId); T::computeFlows(dt); }
    virtual void transportFlows(const double dt) { Mark m(tapId); T::transportFlows(dt); }
};

struct CompNet {
    struct Comp {
        std::string name; int kind, id; GunnsFluidLink* l; std::vector<int> ports; double u[12];
        std::function<void(Ctx&)> pre, post; std::function<void(int, double, Ctx&)> event; std::function<void()> restart;
        std::shared_ptr<void> state; bool passThrough, adiabatic;
        Comp() : kind(0), id(0), l(0), passThrough(false), adiabatic(false) {}
        virtual ~Comp() {}
    };
    int n, nx, nt; double dt; long step; bool over, warned;      ///< over: some node was asked for more than it held
    Recorder rec; std::unique_ptr<RecNode[]> nodes; GunnsNodeList list; Gunns net;
    std::vector<FluidProperties::FluidType> types;
    std::unique_ptr<DefinedFluidProperties> props; std::unique_ptr<DefinedChemicalCompounds> chem;
    std::unique_ptr<GunnsFluidTraceCompoundsConfigData> tcc; std::unique_ptr<PolyFluidConfigData> cfg;
    std::vector<std::unique_ptr<GunnsFluidTraceCompoundsInputData> > tci; std::vector<std::unique_ptr<PolyFluidInputData> > in; std::vector<std::vector<double> > w, tc;
    std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicLink> > own; std::vector<GunnsFluidCapacitor*> caps;
    std::vector<std::unique_ptr<Comp> > comps; int ids;
    std::vector<std::unique_ptr<PolyFluid> > before; std::vector<double> P0, m0, n0; std::vector<std::vector<double> > tc0;
    std::vector<Op> nd;

    CompNet() : n(0), nx(1), nt(0), dt(0.1), step(0), over(false), warned(false), ids(0) {}
    ~CompNet() { recorder() = 0; }
    int node(int i) const { return ((i % n) + n) % n; }
    bool has(FluidProperties::FluidType t) const { for (auto x : types) if (x == t) return true; return false; }
    int idx(FluidProperties::FluidType t) const { for (size_t k = 0; k < types.size(); ++k) if (types[k] == t) return (int)k; return -1; }
    double tcMw(int k) const { return tcc->mCompounds[k]->mMWeight; }

    /// op node: {V, T, P, w0.., tc0..} with w for each of the network's fluids (at index 3) and three compounds (at index 13)
    void begin(const Plan& p, const std::vector<FluidProperties::FluidType>& ty, const std::vector<ChemicalCompound::Type>& tct) {
        types = ty; nx = (int)ty.size(); nt = (int)tct.size(); n = 0; for (auto& o : p.ops) if (o.kind == "node") nd.push_back(o);
        while (nd.size() < 2) nd.push_back(Op("node", {1.0, 300, 100, 1}));
        if (nd.size() > 10) nd.resize(10);
        n = (int)nd.size();
        props.reset(new DefinedFluidProperties); chem.reset(new DefinedChemicalCompounds);
        if (nt) tcc.reset(new GunnsFluidTraceCompoundsConfigData(const_cast<ChemicalCompound::Type*>(tct.data()), nt, "tc"));
        cfg.reset(new PolyFluidConfigData(props.get(), types.data(), nx, tcc.get()));
        nodes.reset(new RecNode[n + 1]); list.mNumNodes = n + 1; list.mNodes = nodes.get();
        rec.n = n; rec.nx = nx; rec.nt = nt; rec.base = nodes.get(); rec.t.assign(1, std::vector<Touch>(n + 1));
        w.resize(n); tc.resize(n); tci.resize(n); in.resize(n);
        for (int i = 0; i < n; ++i) {
            double s = 0; w[i].resize(nx); tc[i].assign(4, 0.0);
            for (int k = 0; k < nx; ++k) s += w[i][k] = std::max(0.0, nd[i].d(3 + k, k == 0));
            if (s <= 0) { w[i][0] = 1; s = 1; } for (auto& v : w[i]) v /= s;
            for (int k = 0; k < nt; ++k) tc[i][k] = std::min(1e-2, std::max(0.0, nd[i].d(13 + k)));
            tci[i].reset(new GunnsFluidTraceCompoundsInputData(tc[i].data()));
            in[i].reset(new PolyFluidInputData(nd[i].d(1, 300), nd[i].d(2, 100), 0, 0, w[i].data(), nt ? tci[i].get() : 0));
            nodes[i].initialize("n" + std::to_string(i), cfg.get(), in[i].get());
        }
        nodes[n].initialize("GND", cfg.get());
        net.initializeFluidNodes(list);
        caps.assign(n, 0);
        for (int i = 0; i < n; ++i) if (nd[i].d(0) > 0) {
            GunnsFluidCapacitorConfigData c("cap" + std::to_string(i), &list, 0.0);
            GunnsFluidCapacitorInputData d(false, 0, nd[i].d(0), in[i].get());
            auto* x = new Tap<GunnsFluidCapacitor>; own.emplace_back(x); x->tapId = newId(); caps[i] = x; x->initialize(c, d, links, i, n);
        }
    }
    int newId() { rec.t.emplace_back(n + 1); return (int)rec.t.size() - 1; }
    /// A plain conductor between two nodes.
    void conductor(const std::string& nm, int a, int b, double G) {
        if (a == b) return;
        auto* x = new Tap<GunnsFluidConductor>; own.emplace_back(x); x->tapId = newId();
        x->initialize(GunnsFluidConductorConfigData(nm, &list, G, 0, 0.5), GunnsFluidConductorInputData(false, 0), links, a, b);
    }
    /// Makes a recorded component; the caller initializes it.
    template <class T> T* make(Comp& c) { auto* x = new Tap<T>; own.emplace_back(x); x->tapId = c.id = newId(); c.l = x; return x; }
    void finish(const Plan& p) {
        GunnsConfigData gc("net", 1e-6, p.get("minLinP", 1e-8), 20, 20);
        net.initialize(gc, links); nodes[n].resetContentState(); dt = p.get("dt", 0.1);
        before.resize(n); P0.resize(n + 1); m0.resize(n); n0.resize(n); tc0.assign(n, std::vector<double>(4, 0.0));
    }
    /// One major step with the record taken; false when the run cannot go on.
    bool advance(HsTap& hs, Ctx& ctx) {
        for (int i = 0; i < n; ++i) {
            if (!before[i]) before[i].reset(new PolyFluid(nodes[i].mContent, "before", true));
            before[i]->setState(&nodes[i].mContent); P0[i] = nodes[i].getPotential(); m0[i] = nodes[i].mContent.getMass(); n0[i] = nodes[i].mContent.getMole();
            for (int k = 0; k < nt; ++k) tc0[i][k] = nodes[i].mContent.getTraceCompounds()->getMasses()[k];
        }
        P0[n] = 0;
        for (auto& c : comps) if (c->pre) c->pre(ctx);
        hs.msgs.clear(); rec.clear(); recorder() = &rec;
        net.step(dt); recorder() = 0; ctx.advance(dt);
        warned = false; for (auto& m : hs.msgs) { if (ctx.verbose) fprintf(stderr, "  step %ld hs: %s\n", step, m.text.c_str()); warned |= m.text.find("conservation errors") != std::string::npos || m.text.find("caught exception") != std::string::npos; }
        if (net.mLastMinorStep < 0) { ctx.probe("step_aborted"); return false; }
        double pMax = 0; for (int i = 0; i < n; ++i) pMax = std::max(pMax, std::fabs(nodes[i].getPotential()));
        if (!finite(pMax) || pMax > 1e6) { ctx.probe("runaway_pressure"); return false; }
        over = warned;
        for (int i = 0; i < n; ++i) { if (nodes[i].getPotential() < 0) over = true; if (nodes[i].getVolume() > 0 && (nodes[i].mScheduledOutflux * dt > n0[i] * (1 - 1e-12) || m0[i] < 1e-12 || nodes[i].mContent.getMass() < 1e-12)) over = true; }
        if (over) ctx.probe("overdrawn_step");
        traceStep(net, over);
        return true;
    }
    const Touch& touch(const Comp& c, int port) const { return rec.t[c.id][c.l->mNodeMap[port]]; }
    /// Net effect of a link on all nodes: mass, each species, enthalpy (with direct heat), each trace compound.
    struct Net { double m, h, mol, sp[12], tc[4], gross, grossH, grossTc = 0; };
    Net sum(const Comp& c) const {
        Net r; r.m = r.h = r.mol = r.gross = r.grossH = 0; for (double& v : r.sp) v = 0; for (double& v : r.tc) v = 0;
        for (int i = 0; i <= n; ++i) add(r, rec.t[c.id][i], i);
        return r;
    }
    Net at(const Comp& c, int port) const {
        Net r; r.m = r.h = r.mol = r.gross = r.grossH = 0; for (double& v : r.sp) v = 0; for (double& v : r.tc) v = 0;
        add(r, rec.t[c.id][c.l->mNodeMap[port]], c.l->mNodeMap[port]); return r;
    }
    void add(Net& r, const Touch& t, int i) const {
        const PolyFluid& o = nodes[i].mOutflow; const GunnsFluidTraceCompounds* otc = nt && i < n ? const_cast<PolyFluid&>(o).getTraceCompounds() : 0;
        r.m += t.in - t.out; r.h += t.inH - t.out * o.getSpecificEnthalpy() + t.heat; r.gross += std::fabs(t.in) + t.out; r.grossH += std::fabs(t.inH) + t.out * std::fabs(o.getSpecificEnthalpy()) + std::fabs(t.heat);
        for (int k = 0; k < nx; ++k) r.sp[k] += t.inSp[k] - t.out * o.getMassFraction(k);
        for (int k = 0; k < nt; ++k) { const double q = otc && o.getMWeight() > 0 ? t.out / o.getMWeight() * otc->getMoleFractions()[k] * tcMw(k) : 0.0; r.tc[k] += t.inTc[k] - q; r.grossTc += std::fabs(t.inTc[k]) + std::fabs(q); }
    }
    /// What the node will really lose for this link against what the link says it took.
    void checkSchedule(const Comp& c, Ctx& ctx) const {
        for (int i = 0; i < n; ++i) { const Touch& t = rec.t[c.id][i]; const double mw = nodes[i].mOutflow.getMWeight(); ctx.check(near(t.outMol * mw, t.out, 1e-9, 2e-12 * (1 + mw)), fmt("schedule: %s has node %d give up %.12g kg/s but takes %.12g kg/s", c.name.c_str(), i, t.outMol * mw, t.out)); }
    }
};

} // namespace dst
#endif
