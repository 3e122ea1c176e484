// A network of real thermal links with a reference model of what each was commanded to do.
#ifndef DST_THERMNET_HH
#define DST_THERMNET_HH
#include "common.hh"
#include "core/GunnsBasicConductor.hh"
#include "aspects/thermal/GunnsThermalCapacitor.hh"
#include "aspects/thermal/GunnsThermalRadiation.hh"
#include "aspects/thermal/GunnsThermalPotential.hh"
#include "aspects/thermal/GunnsThermalSource.hh"
#include "aspects/thermal/GunnsThermalHeater.hh"
#include "aspects/thermal/GunnsThermalPanel.hh"
#include "aspects/thermal/GunnsThermalMultiPanel.hh"
#include "aspects/thermal/GunnsThermalPhaseChangeBattery.hh"
#include "aspects/thermal/GunnsThermoelectricDevice.hh"

namespace dst {

enum ThType { TH_CAP = 0, TH_COND, TH_RAD, TH_POT, TH_SRC, TH_HTR, TH_PAN, TH_MPAN, TH_TED, TH_PCB };

struct ThLink {
    int t = 0; std::vector<int> ports, defPorts; std::vector<double> fr;
    double g = 0, pend = 0, s = 0, view = 1, demand = 0, tune = 1, area = 1, absorp = 1;
    double inc[5] = {0, 0, 0, 0, 0}, vs[5] = {0, 0, 0, 0, 0}, ab[5] = {0, 0, 0, 0, 0};
    double ext[15]; bool fo = false; double fov = 0; bool to = false; double tov = 0; bool ov = false, fresh = false; double ovv = 0;
    double cur = 0, te = 1; bool tef = false;
    double R0 = 0, R1 = 0, S[3] = {0, 0, 0}, K[3] = {0, 0, 0}, tmin = 1, tmax = 1e4;   // thermoelectric totals
    double tpc = 0, heat = 0, ch = 0, cc = 0, cs = 0, leak = 0; bool leakOn = false;
    std::unique_ptr<GunnsBasicLink> l;
    ThLink() { for (double& e : ext) e = 0; }
    double extSum() const { double x = 0; for (double e : ext) x += e; return x; }
    bool multi() const { return t >= TH_SRC && t <= TH_MPAN; }
};

struct ThermNet {
    int n = 0;
    std::unique_ptr<GunnsBasicNode[]> nodes;
    GunnsNodeList list;
    Gunns net;
    std::vector<GunnsBasicLink*> links;
    std::vector<std::unique_ptr<ThLink> > L;

    static double blockOf(const GunnsBasicLink* l) { return l->mMalfBlockageFlag ? 1.0 - l->mMalfBlockageValue : 1.0; }
    bool hasCap(int node) const { for (auto& k : L) if ((k->t == TH_CAP || k->t == TH_PCB) && k->ports[0] == node) return true; return false; }

    void build(const Plan& p) {
        n = std::max(1, p.geti("nodes", 2));
        nodes.reset(new GunnsBasicNode[n + 1]);
        list.mNumNodes = n + 1; list.mNodes = nodes.get();
        for (int i = 0; i <= n; ++i) nodes[i].initialize("n" + std::to_string(i));
        net.initializeNodes(list);
        int k = 0;
        for (auto& o : p.ops) if (o.kind == "cap" || o.kind == "pcb") add(k++, o);
        for (int i = 0; i < n; ++i) if (!hasCap(i)) add(k++, Op("cap", {(double)i, 1000.0, 290.0}));
        for (auto& o : p.ops) if (o.kind == "tlink" || o.kind == "msrc") add(k++, o);
        GunnsConfigData c("therm", 1.0e-6, 1e-8, 1, 1);
        net.initialize(c, links);
        net.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island", 0)));
    }
    int nd(double v, bool ground = true) const { return std::min(std::max(static_cast<int>(v), 0), ground ? n : n - 1); }

    // cap: node C T | pcb: node mass T frac heat ch cc cs Tpc | tlink: type a b x y | msrc: type demand tune area absorp numports node frac ...
    void add(int k, const Op& o) {
        std::unique_ptr<ThLink> L_(new ThLink); ThLink& m = *L_;
        const std::string nm = "th" + std::to_string(k);
        if (o.kind == "cap") {
            if (hasCap(nd(o.d(0), false))) return;
            m.t = TH_CAP; m.ports = {nd(o.d(0), false), n}; m.g = o.d(1, 1000); m.s = o.d(2, 290);
            GunnsThermalCapacitor* c = new GunnsThermalCapacitor; m.l.reset(c);
            c->initialize(GunnsThermalCapacitorConfigData(nm, &list), GunnsThermalCapacitorInputData(false, 0.0, m.g, m.s), links, m.ports[0], n);
        } else if (o.kind == "pcb") {
            if (hasCap(nd(o.d(0), false))) return;
            m.t = TH_PCB; m.ports = {nd(o.d(0), false)}; m.g = o.d(1, 1); m.heat = o.d(4, 200); m.ch = o.d(5, 2); m.cc = o.d(6, 2); m.cs = o.d(7, 100); m.tpc = o.d(8, 300);
            double fr = std::min(std::max(o.d(3), 0.0), 1.0), T = o.d(2, 300);
            if (fr > 0 && fr < 1) T = m.tpc; else if (fr == 0) T = std::min(T, m.tpc); else T = std::max(T, m.tpc);
            GunnsThermalPhaseChangeBattery* c = new GunnsThermalPhaseChangeBattery; m.l.reset(c);
            c->initialize(GunnsThermalPhaseChangeBatteryConfigData(nm, &list, m.tpc, m.heat, m.ch, m.cc, m.cs), GunnsThermalPhaseChangeBatteryInputData(m.g, T, fr, false, 0.0), links, m.ports[0]);
        } else if (o.kind == "tlink") {
            m.t = o.i(0); int a = nd(o.d(1)), b = nd(o.d(2)); if (a == b) { if (a == n) a = 0; else b = n; }
            m.ports = {a, b}; m.g = std::max(0.0, o.d(3, 1)); 
            switch (m.t) {
                case TH_COND: { GunnsBasicConductor* c = new GunnsBasicConductor; m.l.reset(c); c->initialize(GunnsBasicConductorConfigData(nm, &list, m.g), GunnsBasicConductorInputData(false, 0.0), links, a, b); break; }
                case TH_RAD:  { m.view = std::min(std::max(o.d(4, 1), 0.0), 1.0); m.g = std::min(m.g, 1e-3); GunnsThermalRadiation* c = new GunnsThermalRadiation; m.l.reset(c); c->initialize(GunnsThermalRadiationConfigData(nm, &list, m.g), GunnsThermalRadiationInputData(false, 0.0, m.view), links, a, b); break; }
                case TH_POT:  { m.s = o.d(4, 280); if (b == n) b = a == n ? 0 : a; m.ports = {n, b}; GunnsThermalPotential* c = new GunnsThermalPotential; m.l.reset(c); c->initialize(GunnsThermalPotentialConfigData(nm, &list, m.g), GunnsThermalPotentialInputData(false, 0.0, m.s), links, n, b); break; }
                case TH_TED: {
                    if (n < 2) return;
                    a = nd(a, false); b = nd(b, false); if (a == b) b = (a + 1) % n;
                    m.ports = {a, b};
                    const double N = 40, G = 0.002, r0 = 1.0e-5, r1 = 1.0e-8, s0 = 1.0e-4, s1 = 2.0e-7, s2 = o.d(4) * 1e-10, k0 = 1.5, k1 = -1.0e-3, k2 = 2.0e-6;
                    m.R0 = 2 * N * r0 / G; m.R1 = 2 * N * r1 / G; m.S[0] = 2 * N * s0; m.S[1] = 2 * N * s1; m.S[2] = 2 * N * s2;
                    m.K[0] = 2 * N * G * k0; m.K[1] = 2 * N * G * k1; m.K[2] = 2 * N * G * k2;
                    const double ep = m.g > 1 ? m.g : 0; if (ep > 0) m.K[0] = 1 / (1 / m.K[0] + 2 / ep);
                    m.tmin = 150; m.tmax = 500;
                    GunnsThermoelectricDevice* c = new GunnsThermoelectricDevice; m.l.reset(c);
                    GunnsThermoelectricDeviceInputData in(false, 0.0);
                    c->initialize(GunnsThermoelectricDeviceConfigData(nm, &list, N, G, r0, r1, s0, s1, s2, k0, k1, k2, ep, m.tmin, m.tmax), in, links, a, b);
                    break; }
                default: return;
            }
        } else {
            m.t = std::min(std::max(o.i(0), (int)TH_SRC), (int)TH_MPAN); m.demand = std::max(0.0, o.d(1)); m.tune = o.d(2, 1); m.area = std::max(0.01, o.d(3, 1)); m.absorp = std::min(std::max(o.d(4, 0.5), 0.01), 1.0);
            double sum = 0;
            for (size_t i = 5; i + 1 < o.a.size() && m.ports.size() < 4; i += 2) { int p = nd(o.d(i), false); if (std::find(m.ports.begin(), m.ports.end(), p) == m.ports.end()) { m.ports.push_back(p); m.fr.push_back(std::max(0.01, o.d(i + 1, 1))); sum += m.fr.back(); } }
            if (m.ports.empty()) { m.ports = {0}; m.fr = {1.0}; sum = 1; }
            for (double& f : m.fr) f /= sum;
            std::vector<int> pv = m.ports;
            if (m.t == TH_SRC) { GunnsThermalSource* c = new GunnsThermalSource; m.l.reset(c); c->initialize(GunnsThermalSourceConfigData(nm, &list, m.tune, &m.fr), GunnsThermalSourceInputData(false, 0, m.demand), links, &pv); }
            else if (m.t == TH_HTR) { GunnsThermalHeater* c = new GunnsThermalHeater; m.l.reset(c); c->initialize(GunnsThermalHeaterConfigData(nm, &list, m.tune, &m.fr), GunnsThermalHeaterInputData(false, 0, 0), links, &pv); m.demand = 0; }
            else if (m.t == TH_PAN) { GunnsThermalPanel* c = new GunnsThermalPanel; m.l.reset(c); m.inc[0] = m.demand / (m.absorp * m.area); c->initialize(GunnsThermalPanelConfigData(nm, &list, m.tune, &m.fr, m.absorp, m.area), GunnsThermalPanelInputData(false, 0, m.demand), links, &pv); }
            else {
                GunnsThermalMultiPanel* c = new GunnsThermalMultiPanel; m.l.reset(c);
                for (int i = 0; i < 5; ++i) { m.ab[i] = m.absorp * (i + 1) / 5.0; m.vs[i] = 1.0 / (i + 1); m.inc[i] = m.demand * (i == 2 ? 0 : 1) / (1 + i); }
                c->initialize(GunnsThermalMultiPanelConfigData(nm, &list, m.tune, &m.fr, m.ab[0], m.ab[1], m.ab[2], m.ab[3], m.ab[4], m.area), GunnsThermalMultiPanelInputData(false, 0, 0, false, 0, m.vs[0], m.vs[1], m.vs[2], m.vs[3], m.vs[4], m.inc[0], m.inc[1], m.inc[2], m.inc[3], m.inc[4]), links, &pv);
            }
        }
        m.defPorts = m.ports;
        L.push_back(std::move(L_));
    }
};
} // namespace dst
#endif
