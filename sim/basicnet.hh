// A network of real basic-aspect links under a plan, plus a fault-injecting non-linear link.
#ifndef DST_BASICNET_HH
#define DST_BASICNET_HH
#include "common.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "core/GunnsBasicPotential.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicFlowController.hh"
#include "software/exceptions/TsNumericalException.hh"

namespace dst {

/// Event seen by a SimLink, for the minor-step protocol oracle.
struct SlEvent { char what; int link; int conv; int step; double p0, p1; int result; };

/// Two-port conductor with a source whose convergence votes, admittance, and faults follow the plan.
/// The per-minor-step script (votes, mult, fault) holds for one major step.
class SimLink : public GunnsBasicLink {
  public:
    enum Fault { NO_FAULT = 0, NEG_ADMITTANCE = 1, THROW = 2 };
    SimLink() : GunnsBasicLink(2), id(0), nonLinear(true), base(1.0), src(0.0), votes(), mult(), adds(), fault(0), faultAt(0), resetFails(false), dirty(false), trace(0) {}
    int                   id;
    bool                  nonLinear;
    double                base;
    double                src;
    std::vector<int>      votes;   // vote for minor step m (1-based); CONFIRM past the end
    std::vector<double>   mult;    // admittance multiplier for minor step m; 1 past the end
    std::vector<double>   adds;    // source added in minor step m; 0 past the end
    int                   fault;
    int                   faultAt;
    bool                  resetFails;
    bool                  dirty;   // declares an admittance update even when nothing changed
    std::vector<SlEvent>* trace;
    void clearScript() { votes.clear(); mult.clear(); adds.clear(); fault = 0; faultAt = 0; resetFails = false; dirty = false; }
    double gAt(int m) const { return base * (m >= 1 && m <= static_cast<int>(mult.size()) ? mult[m - 1] : 1.0); }
    double srcAt(int m) const { return src + (m >= 1 && m <= static_cast<int>(adds.size()) ? adds[m - 1] : 0.0); }
    int    voteAt(int m) const { return m >= 1 && m <= static_cast<int>(votes.size()) ? votes[m - 1] : static_cast<int>(CONFIRM); }
    void init(const std::string& name, GunnsNodeList* nodes, std::vector<GunnsBasicLink*>& links, int p0, int p1) {
        GunnsBasicLinkConfigData c(name, nodes);
        GunnsBasicLinkInputData  i(false, 0.0);
        int ports[2] = {p0, p1};
        id = static_cast<int>(links.size());
        GunnsBasicLink::initialize(c, i, links, ports);
        mInitFlag = true;
    }
    void note(char w, int conv, int m, int r = 0) { if (trace) trace->push_back(SlEvent{w, id, conv, m, mPotentialVector[0], mPotentialVector[1], r}); }
    void apply(int m) {
        double g = gAt(m);
        if (fault == NEG_ADMITTANCE && faultAt == m) g = -1.0e5 - 10.0 * std::fabs(g);
        if (fault == THROW && faultAt == m) throw TsNumericalException("simulated fault", "SimLink", "link step failed.");
        if (dirty || !(mAdmittanceMatrix[0] == g)) {
            mAdmittanceMatrix[0] = mAdmittanceMatrix[3] = g;
            mAdmittanceMatrix[1] = mAdmittanceMatrix[2] = -g;
            mAdmittanceUpdate = true;
        }
        mSourceVector[0] = -srcAt(m);
        mSourceVector[1] = srcAt(m);
    }
    virtual void restartModel() { GunnsBasicLink::restartModel(); }
    virtual void step(const double) { processUserPortCommand(); note('s', 0, 1); apply(1); }
    virtual void minorStep(const double, const int m) { note('m', 0, m); apply(m); }
    virtual bool isNonLinear() { return nonLinear; }
    virtual SolutionResult confirmSolutionAcceptable(const int conv, const int abs) {
        int r = voteAt(abs);
        note('c', conv, abs, r);
        return static_cast<SolutionResult>(r);
    }
    virtual bool resetLastMinorStep(const int conv, const int abs) { note('r', conv, abs); return !resetFails; }
    virtual void computeFlows(const double) {
        note('f', 0, 0);
        mPotentialDrop = getDeltaPotential();
        mFlux = mPotentialDrop * mAdmittanceMatrix[0] + mSourceVector[1];
        transportFlux();
    }
    virtual void processInputs()  { note('i', 0, 0); }
    virtual void processOutputs() { note('o', 0, 0); }
};

struct BasicNet {
    enum Type { COND = 0, CAP, POT, SRC, FLOWC, SIM };
    int                           n;        // nodes without ground
    std::unique_ptr<GunnsBasicNode[]> nodes;
    GunnsNodeList                 list;
    Gunns                         net;
    std::vector<GunnsBasicLink*>  links;
    std::vector<int>              type;
    std::vector<std::unique_ptr<GunnsBasicLink> > own;
    std::vector<SlEvent>          trace;
    std::vector<double>           g, s;   // last commanded conductivity or capacitance, and source, per link

    BasicNet() : n(0) {}
    void build(const Plan& p, bool allowNonLinear = true) {
        n = std::max(1, p.geti("nodes", 3));
        nodes.reset(new GunnsBasicNode[n + 1]);
        list.mNumNodes = n + 1;
        list.mNodes = nodes.get();
        net.initializeNodes(list);
        int k = 0;
        for (auto& o : p.ops) if (o.kind == "link") { addLink(k++, o, allowNonLinear); }
        GunnsConfigData cfg("net", p.get("tol", 1e-6), 1e-8, p.geti("minorLimit", 20), p.geti("decompLimit", 20));
        net.initialize(cfg, links);
        net.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island", 0)));
    }
    // op link: type p0 p1 a b nonlinear
    void addLink(int k, const Op& o, bool allowNonLinear) {
        int t = o.i(0), p0 = std::min(std::max(o.i(1), 0), n), p1 = std::min(std::max(o.i(2), 0), n);
        if (p0 == p1 && p0 != n) p1 = n;
        if (t == FLOWC && !allowNonLinear) t = COND;
        std::string nm = "link" + std::to_string(k);
        GunnsBasicLink* l = 0;
        switch (t) {
            case COND: { GunnsBasicConductor* c = new GunnsBasicConductor; GunnsBasicConductorConfigData d(nm, &list, o.d(3, 1.0)); GunnsBasicConductorInputData i(false, 0.0); c->initialize(d, i, links, p0, p1); l = c; break; }
            case CAP:  { GunnsBasicCapacitor* c = new GunnsBasicCapacitor; GunnsBasicCapacitorConfigData d(nm, &list); GunnsBasicCapacitorInputData i(false, 0.0, o.d(3, 1.0), o.d(4, 0.0)); c->initialize(d, i, links, p0, p1); l = c; break; }
            case POT:  { GunnsBasicPotential* c = new GunnsBasicPotential; GunnsBasicPotentialConfigData d(nm, &list, o.d(3, 1.0)); GunnsBasicPotentialInputData i(false, 0.0, o.d(4, 0.0)); c->initialize(d, i, links, p0, p1); l = c; break; }
            case SRC:  { GunnsBasicSource* c = new GunnsBasicSource; GunnsBasicSourceConfigData d(nm, &list); GunnsBasicSourceInputData i(false, 0.0, o.d(3, 0.0)); c->initialize(d, i, links, p0, p1); l = c; break; }
            case FLOWC:{ GunnsBasicFlowController* c = new GunnsBasicFlowController; GunnsBasicFlowControllerConfigData d(nm, &list, o.d(3, 1.0), true, true); GunnsBasicFlowControllerInputData i(false, 0.0, false, 0.0, o.d(4, 0.1)); c->initialize(d, i, links, p0, p1); l = c; break; }
            default:   { SimLink* c = new SimLink; c->base = o.d(3, 1.0); c->src = o.d(4, 0.0); c->nonLinear = allowNonLinear && o.d(5, 1.0) != 0.0; c->trace = &trace; c->init(nm, &list, links, p0, p1); l = c; t = SIM; break; }
        }
        own.push_back(std::unique_ptr<GunnsBasicLink>(l));
        g.push_back(o.d(3, 1.0)); s.push_back(t == SRC ? o.d(3, 0.0) : o.d(4, 0.0));
        type.push_back(t);
    }
    SimLink* sim(size_t k) { return k < links.size() && type[k] == SIM ? static_cast<SimLink*>(links[k]) : 0; }

    /// Nodes whose island has an admittance path to ground (others float: common mode undefined).
    std::vector<bool> grounded() {
        Uf uf(n + 1);
        for (auto l : links) {
            const int np = l->getNumberPorts();
            for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j)
                if (i != j && std::fabs(l->getAdmittanceMatrix()[i * np + j]) > 1e-12) uf.u(l->getNodeMap()[i], l->getNodeMap()[j]);
        }
        std::vector<bool> g(n);
        for (int i = 0; i < n; ++i) g[i] = uf.f(i) == uf.f(n);
        return g;
    }
    bool anyOverride() {
        for (auto l : links) for (int i = 0; i < l->getNumberPorts(); ++i) if (l->getOverrideVector()[i]) return true;
        return false;
    }
    /// Reference assembly of A and b straight from the links' contributions and node maps.
    void assemble(std::vector<double>& A, std::vector<double>& b) {
        A.assign(n * n, 0.0); b.assign(n, 0.0);
        for (auto l : links) {
            const int np = l->getNumberPorts();
            for (int i = 0; i < np; ++i) {
                const int r = l->getNodeMap()[i];
                if (r >= n) continue;
                b[r] += l->getSourceVector()[i];
                for (int j = 0; j < np; ++j) {
                    const int c = l->getNodeMap()[j];
                    if (c < n) A[r * n + c] += l->getAdmittanceMatrix()[i * np + j];
                }
            }
        }
    }
    /// Largest relative residual of the reported potentials in the reference system; row returned.
    double residual(int& row) {
        std::vector<double> A, b;
        assemble(A, b);
        double worst = 0.0; row = -1;
        for (int i = 0; i < n; ++i) {
            double r = -b[i], s = std::fabs(b[i]);
            for (int j = 0; j < n; ++j) { double t = A[i * n + j] * net.getPotentialVector()[j]; r += t; s += std::fabs(t); }
            if (!finite(r)) { row = i; return HUGE_VAL; }
            double q = std::fabs(r) / (s + 1e-9);
            if (q > worst) { worst = q; row = i; }
        }
        return worst;
    }
};

/// Per-minor-step scripts of the non-linear links (votes, admittance multipliers, source steps).
inline void genScripts(Rng& r, Plan& p, int links, double pr, double pd, int longest) {
    std::vector<double> v{(double)r.irange(0, links - 1)};
    const int len = r.irange(1, longest), what = r.irange(0, 2);
    for (int i = 0; i < len; ++i) v.push_back(what == 0 ? (r.chance(pr) ? (double)GunnsBasicLink::REJECT : r.chance(pd) ? (double)GunnsBasicLink::DELAY : (double)GunnsBasicLink::CONFIRM) : what == 1 ? r.range(0.5, 2.0) : r.chance(0.3) ? 0.0 : r.range(-5, 5));
    p.add(what == 0 ? "votes" : what == 1 ? "mult" : "adds", v);
}
inline bool applyScript(BasicNet& net, const Op& o, Ctx& ctx) {
    if (o.kind != "votes" && o.kind != "mult" && o.kind != "adds") return false;
    if (net.links.empty()) return true;
    SimLink* s = net.sim(static_cast<size_t>(std::max(0, o.i(0))) % net.links.size());
    if (!s) return true;
    if (o.kind == "votes") { s->votes.clear(); for (size_t i = 1; i < o.a.size(); ++i) s->votes.push_back(o.i(i)); ctx.fault("vote_script"); }
    else { std::vector<double>& v = o.kind == "mult" ? s->mult : s->adds; v.assign(o.a.begin() + (o.a.empty() ? 0 : 1), o.a.end()); ctx.fault(o.kind == "mult" ? "admittance_script" : "source_script"); }
    return true;
}

/// Applies a disturbance op common to all basic-network scenarios.  Returns false if not one of them.
inline bool applyDisturbance(BasicNet& net, const Op& o, Ctx& ctx) {
    if (net.links.empty()) return false;
    size_t k = static_cast<size_t>(std::max(0, o.i(0))) % net.links.size();
    GunnsBasicLink* l = net.links[k];
    if (o.kind == "block")    { l->setMalfBlockage(o.b(1), o.d(2)); ctx.fault("blockage"); return true; }
    if (o.kind == "port")     { if (l->setPort(o.i(1), o.i(2), "sim", true)) ctx.fault("port_move"); else ctx.fault("port_move_refused"); return true; }
    if (o.kind == "userport") { l->mUserPortSelect = o.i(1); l->mUserPortSelectNode = o.i(2); l->mUserPortSetControl = static_cast<GunnsBasicLink::UserPortControl>(o.i(3)); ctx.fault("user_port_command"); return true; }
    if (o.kind == "override") { if (o.b(2)) { l->setPortOverride(o.i(1), o.d(3)); ctx.fault("potential_override"); } else l->resetPortOverride(o.i(1)); return true; }
    if (o.kind == "param") {
        if (net.type[k] == BasicNet::COND || net.type[k] == BasicNet::CAP || net.type[k] == BasicNet::SIM) net.g[k] = o.d(1);
        if (net.type[k] != BasicNet::CAP) net.s[k] = o.d(2);
        switch (net.type[k]) {
            case BasicNet::COND:  static_cast<GunnsBasicConductor*>(l)->setDefaultConductivity(o.d(1)); break;
            case BasicNet::POT:   static_cast<GunnsBasicPotential*>(l)->setSourcePotential(o.d(2)); break;
            case BasicNet::SRC:   static_cast<GunnsBasicSource*>(l)->setFluxDemand(o.d(2)); break;
            case BasicNet::CAP:   static_cast<GunnsBasicCapacitor*>(l)->editCapacitance(true, o.d(1)); break;
            case BasicNet::FLOWC: static_cast<GunnsBasicFlowController*>(l)->setFluxCommand(std::fabs(o.d(2))); break;
            default:              static_cast<SimLink*>(l)->base = o.d(1); static_cast<SimLink*>(l)->src = o.d(2); break;
        }
        ctx.fault("parameter_step");
        return true;
    }
    if (o.kind == "nudge") {       // a relative change of a parameter far below any comparison tolerance
        const double q = 1.0 + o.d(1), gg = net.g[k] * q, ss = net.s[k] * q;
        switch (net.type[k]) {
            case BasicNet::COND:  net.g[k] = gg; static_cast<GunnsBasicConductor*>(l)->setDefaultConductivity(gg); break;
            case BasicNet::POT:   net.s[k] = ss; static_cast<GunnsBasicPotential*>(l)->setSourcePotential(ss); break;
            case BasicNet::SRC:   net.s[k] = ss; static_cast<GunnsBasicSource*>(l)->setFluxDemand(ss); break;
            case BasicNet::CAP:   net.g[k] = gg; static_cast<GunnsBasicCapacitor*>(l)->editCapacitance(true, gg); break;
            case BasicNet::SIM:   net.g[k] = gg; static_cast<SimLink*>(l)->base = gg; break;
            default: break;
        }
        ctx.fault("parameter_nudge");
        return true;
    }
    if (o.kind == "netcap") { net.nodes[static_cast<size_t>(std::max(0, o.i(0))) % net.n].setNetworkCapacitanceRequest(o.d(1)); ctx.fault("capacitance_probe"); return true; }
    return false;
}
} // namespace dst
#endif
