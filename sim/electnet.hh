// A network of real electrical switches, loads and sources, with a linear-circuit reference solution.
#ifndef DST_ELECTNET_HH
#define DST_ELECTNET_HH
#include "common.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicPotential.hh"
#include "core/GunnsBasicSource.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
#include "aspects/electrical/Switch/SwitchElect.hh"
#include "aspects/electrical/Switch/GunnsElectSelector.hh"
#include "aspects/electrical/resistive/GunnsElectShort.hh"
#include "aspects/electrical/UserLoad/GunnsElectResistiveUserLoad.hh"
#include "aspects/electrical/UserLoad/GunnsElectConstantPowerUserLoad.hh"

namespace dst {

enum ElType { EL_POT = 0, EL_RES, EL_SRC, EL_SW2, EL_SW1, EL_SWE, EL_SEL, EL_SHORT };

struct ElLoad {
    bool cp = false; double uv = 0, rn = 1, rs = 1, fuse = 0, duty = 0, period = 0, timer = 0;   // rn/rs: ohm, or watt for a constant power load
    int mode = LoadON; bool blown = false, malfBlow = false; bool ovI = false; double ovIv = 0; bool ovP = false; double ovPv = 0; bool magic = false; double magicV = 0;
    std::unique_ptr<GunnsElectResistiveUserLoadConfigData> rc; std::unique_ptr<GunnsElectResistiveUserLoadInputData> ri;
    std::unique_ptr<GunnsElectConstantPowerUserLoadConfigData> cc; std::unique_ptr<GunnsElectConstantPowerUserLoadInputData> ci;
    std::unique_ptr<GunnsElectUserLoad> l;
    UserLoadBase* base() { return l->getLoad(); }
};

struct ElLink {
    int t = 0; std::vector<int> ports, defPorts; double g = 0, s = 0; int prio = 1;
    std::vector<std::unique_ptr<ElLoad> > loads;
    int shortMode = 0; double shortV = 0, latched = -1; bool relatch = false;       // 0 none 1 const P 2 const I 3 init P 4 init I 5 R
    bool ovr = false; double ovrV = 0; bool dirty = false;
    std::unique_ptr<GunnsBasicLink> l;
    GunnsElectUserLoadSwitch2* s2() { return static_cast<GunnsElectUserLoadSwitch2*>(l.get()); }
    GunnsElectUserLoadSwitch*  s1() { return static_cast<GunnsElectUserLoadSwitch*>(l.get()); }
    SwitchElect*               se() { return static_cast<SwitchElect*>(l.get()); }
    GunnsElectSwitchUtil2&     u2() { return s2()->mSwitch; }
    GunnsElectSwitchUtil&      u1() { return s1()->mSwitch; }
    decltype(SwitchElect::mSwitch)& ue() { return se()->mSwitch; }
    bool sw() const { return t == EL_SW2 || t == EL_SW1 || t == EL_SWE; }
    bool closed() { return t == EL_SW2 ? u2().getPosition() : t == EL_SW1 ? u1().isClosed() : t == EL_SWE ? ue().isClosed() : true; }
    int  trips() { if (t == EL_SW2) return u2().mInputUnderVoltageTrip.isTripped() + 2 * u2().mInputOverVoltageTrip.isTripped() + 4 * u2().mPosOverCurrentTrip.isTripped() + 8 * u2().mNegOverCurrentTrip.isTripped();
                   if (t == EL_SW1) return 4 * u1().isPosTrip() + 8 * u1().isNegTrip(); if (t == EL_SWE) return 4 * ue().isPosTrip() + 8 * ue().isNegTrip(); return 0; }
    GunnsShortUtil* sh() { return t == EL_SW2 ? &s2()->mShort : t == EL_SW1 ? &s1()->mShort : t == EL_SHORT ? &static_cast<GunnsElectShort*>(l.get())->mShort : 0; }
};

struct ElectNet {
    int n = 0;
    std::unique_ptr<GunnsBasicNode[]> nodes;
    GunnsNodeList list;
    Gunns net;
    std::vector<GunnsBasicLink*> links;
    std::vector<std::unique_ptr<ElLink> > L;
    static double blockOf(const GunnsBasicLink* l) { return l->mMalfBlockageFlag ? std::min(1.0, std::max(0.0, 1.0 - l->mMalfBlockageValue)) : 1.0; }

    void build(const Plan& p) {
        n = std::max(1, p.geti("nodes", 2));
        nodes.reset(new GunnsBasicNode[n + 1]);
        list.mNumNodes = n + 1; list.mNodes = nodes.get();
        for (int i = 0; i <= n; ++i) nodes[i].initialize("n" + std::to_string(i));
        net.initializeNodes(list);
        for (int i = 0; i < n; ++i) add(Op("el", {(double)EL_RES, (double)i, (double)n, p.get("leak", 1e-3)}));   // every node has a path to ground
        for (auto& o : p.ops) { if (o.kind == "el") add(o); else if (o.kind == "load") addLoad(o); }
        for (auto& k : L) { if (!k->l) finishSwitch(*k); k->defPorts = k->ports; }
        GunnsConfigData c("elect", 1.0e-6, 1e-8, p.geti("minorLimit", 300), 10000);
        net.initialize(c, links);
        net.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island", 0)));
    }
    int nd(double v) const { return std::min(std::max(static_cast<int>(v), 0), n); }
    // el: type a b x y prio uvTrip uvReset ovTrip ovReset posTrip negTrip closed
    struct Pend { Op o; int a, b; };
    std::vector<Pend> pend;
    void add(const Op& o) {
        std::unique_ptr<ElLink> L_(new ElLink); ElLink& m = *L_;
        const std::string nm = "el" + std::to_string(L.size());
        m.t = std::min(std::max(o.i(0), 0), (int)EL_SHORT);
        int a = nd(o.d(1)), b = nd(o.d(2)); if (a == b) { if (a == n) a = 0; else b = n; }
        m.ports = {a, b}; m.g = std::max(0.0, o.d(3, 1)); m.s = o.d(4);
        switch (m.t) {
            case EL_POT: { if (b == n) { b = a == n ? 0 : a; } m.ports = {n, b}; GunnsBasicPotential* c = new GunnsBasicPotential; m.l.reset(c); c->initialize(GunnsBasicPotentialConfigData(nm, &list, m.g), GunnsBasicPotentialInputData(false, 0.0, m.s), links, n, b); break; }
            case EL_RES: { GunnsBasicConductor* c = new GunnsBasicConductor; m.l.reset(c); c->initialize(GunnsBasicConductorConfigData(nm, &list, m.g), GunnsBasicConductorInputData(false, 0.0), links, a, b); break; }
            case EL_SRC: { GunnsBasicSource* c = new GunnsBasicSource; m.l.reset(c); c->initialize(GunnsBasicSourceConfigData(nm, &list), GunnsBasicSourceInputData(false, 0.0, m.s), links, a, b); break; }
            case EL_SEL: {
                std::vector<int> pv{a, b}; for (int i = 0; i < n && pv.size() < 4; ++i) if (i != a && i != b) pv.push_back(i);
                m.ports = pv; std::vector<std::string> lab; for (size_t i = 0; i < pv.size(); ++i) lab.push_back("p" + std::to_string(i));
                m.s = std::min(std::max((int)m.s, 0), (int)pv.size() - 1);
                GunnsElectSelector* c = new GunnsElectSelector; m.l.reset(c); c->initialize(GunnsElectSelectorConfigData(nm, &list, m.g, &lab), GunnsElectSelectorInputData(false, 0.0, (int)m.s), links, &pv); break; }
            case EL_SHORT: { GunnsElectShort* c = new GunnsElectShort; m.l.reset(c); c->initialize(GunnsElectShortConfigData(nm, &list), GunnsElectShortInputData(), links, a, b); m.g = 0; break; }
            default: m.g = (float)std::max(1e-3, m.g); m.prio = std::max(0, o.i(5, 1)); pend.resize(L.size() + 1); pend[L.size()].o = o; pend[L.size()].a = a; pend[L.size()].b = b; break;   // resistance
        }
        L.push_back(std::move(L_));
    }
    // load: link uv rNormal rStandby fuse mode duty period timer [constant power]
    void addLoad(const Op& o) {
        const size_t k = std::abs(o.i(0)) % L.size(); ElLink& m = *L[k];
        if ((m.t != EL_SW2 && m.t != EL_SW1) || m.loads.size() >= 3) return;
        std::unique_ptr<ElLoad> q(new ElLoad);
        q->uv = std::max(0.0, o.d(1)); q->rn = std::max(0.0, o.d(2, 10)); q->rs = std::max(0.0, o.d(3, 100)); q->fuse = std::max(0.0, o.d(4)); q->mode = std::min(std::max(o.i(5), 0), 2);
        q->duty = std::min(std::max(o.d(6), 0.0), 1.0); q->period = std::max(0.0, o.d(7)); q->timer = std::max(0.0, o.d(8)); q->cp = o.b(9);
        m.loads.push_back(std::move(q));
    }
    void finishSwitch(ElLink& m) {
        size_t k = 0; while (L[k].get() != &m) ++k;
        const Op& o = pend[k].o; const std::string nm = "el" + std::to_string(k);
        if (!m.loads.empty()) { if (m.ports[0] == n) std::swap(m.ports[0], m.ports[1]); m.ports[1] = n; }
        const int a = m.ports[0], b = m.ports[1];
        int j = 0;
        for (auto& q : m.loads) {
            const std::string ln = nm + "load" + std::to_string(j++);
            if (q->cp) {
                q->cc.reset(new GunnsElectConstantPowerUserLoadConfigData(ln, q->uv, q->rn, q->rs, q->fuse, q->duty, q->period));
                q->ci.reset(new GunnsElectConstantPowerUserLoadInputData(q->mode, 0.0, q->timer));
                GunnsElectConstantPowerUserLoad* x = new GunnsElectConstantPowerUserLoad(q->cc.get(), q->ci.get()); q->l.reset(x); x->initialize(q->cc.get(), q->ci.get());
            } else {
                q->rc.reset(new GunnsElectResistiveUserLoadConfigData(ln, q->uv, q->rn, q->rs, q->fuse, q->duty, q->period));
                q->ri.reset(new GunnsElectResistiveUserLoadInputData(q->mode, 0.0, q->timer));
                GunnsElectResistiveUserLoad* x = new GunnsElectResistiveUserLoad(q->rc.get(), q->ri.get()); q->l.reset(x); x->initialize(q->rc.get(), q->ri.get());
            }
        }
        if (m.t == EL_SW2) {
            GunnsElectUserLoadSwitch2* c = new GunnsElectUserLoadSwitch2; m.l.reset(c);
            for (auto& q : m.loads) c->addUserLoad(q->l.get());
            const float uv = o.d(6), uvr = std::max((double)uv, o.d(7)), ov = o.d(8), ovr = std::min((double)ov, o.d(9));
            c->initialize(GunnsElectUserLoadSwitch2ConfigData(nm, &list, m.g, m.prio, -1e6, 1e6, -1e6, 1e6, -1e6, 1e6), GunnsElectUserLoadSwitch2InputData(false, 0.0, o.b(12), uv, uvr, ov, ovr, std::max(0.0, o.d(10)), std::min(0.0, o.d(11))), links, a, b);
        } else if (m.t == EL_SW1) {
            m.prio = std::max(1, m.prio);
            GunnsElectUserLoadSwitch* c = new GunnsElectUserLoadSwitch; m.l.reset(c);
            for (auto& q : m.loads) c->addUserLoad(q->l.get());
            c->initialize(GunnsElectUserLoadSwitchConfigData(nm, &list, m.g, m.prio), GunnsElectUserLoadSwitchInputData(false, 0.0, o.b(12), std::max(0.0, o.d(10)), std::min(0.0, o.d(11))), links, a, b);
        } else {
            m.prio = std::max(1, m.prio);
            SwitchElect* c = new SwitchElect; m.l.reset(c);
            GunnsElectSwitchUtilConfigData cd(m.g, true, true, 110.0, true, 1, m.prio); GunnsElectSwitchUtilInputData id(false, 0, o.b(12), std::max(0.0, o.d(10)), std::min(0.0, o.d(11)));
            SwitchElectConfigData sc(nm, &list, cd); SwitchElectInputData si(false, 0.0, id);
            c->initialize(sc, si, links, a, b);
        }
    }
};

/// Linear circuit: stamps and a pivoting solve in long double.
struct Circuit {
    int n; std::vector<long double> A, b;
    explicit Circuit(int n_) : n(n_), A(n_ * n_, 0), b(n_, 0) {}
    void g(int i, int j, double G) { if (i < n) A[i * n + i] += G; if (j < n) A[j * n + j] += G; if (i < n && j < n) { A[i * n + j] -= G; A[j * n + i] -= G; } }
    void src(int i, double I) { if (i < n) b[i] += I; }
    std::vector<double> solve() {
        std::vector<long double> M(A), r(b);
        for (int c = 0; c < n; ++c) {
            int p = c; for (int i = c + 1; i < n; ++i) if (fabsl(M[i * n + c]) > fabsl(M[p * n + c])) p = i;
            if (M[p * n + c] == 0) continue;
            if (p != c) { for (int j = 0; j < n; ++j) std::swap(M[p * n + j], M[c * n + j]); std::swap(r[p], r[c]); }
            for (int i = c + 1; i < n; ++i) { long double f = M[i * n + c] / M[c * n + c]; if (f == 0) continue; for (int j = c; j < n; ++j) M[i * n + j] -= f * M[c * n + j]; r[i] -= f * r[c]; }
        }
        std::vector<double> x(n + 1, 0.0); std::vector<long double> y(n, 0);
        for (int i = n - 1; i >= 0; --i) { long double s = r[i]; for (int j = i + 1; j < n; ++j) s -= M[i * n + j] * y[j]; y[i] = M[i * n + i] != 0 ? s / M[i * n + i] : 0; x[i] = (double)y[i]; }
        return x;
    }
};
} // namespace dst
#endif
