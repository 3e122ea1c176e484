// N01, N02: network and super-network managers: composition, exception containment, mutex discipline.
#include "basicnet.hh"
#include "fiber.hh"
#include "core/network/GunnsNetworkBase.hh"
#include "core/network/GunnsBasicSuperNetwork.hh"
#include "core/network/GunnsMultiLinkConnector.hh"
#include "core/network/GunnsMutexLock.hh"
#include "software/exceptions/TsInitializationException.hh"

namespace dst {
namespace {

// A sub-network as a drawing would export it: its own nodes, links and spotters, node offsets applied.
class SimNetwork : public GunnsNetworkBase {
  public:
    struct LinkDef { int type, p0, p1; double a, b; };
    SimNetwork(const std::string& name, int localNodes, const std::vector<LinkDef>& d)
        : GunnsNetworkBase(name, localNodes + 1, new GunnsBasicNode[localNodes + 1]), own(netNodeList.mNodes), n(localNodes), defs(d), spot(this, 0), preCount(0), postCount(0), throwPre(0), throwPost(0), initFail(false), pre(), post() {}
    virtual ~SimNetwork() { links.clear(); delete[] own; }
    GunnsBasicNode* own; int n; std::vector<LinkDef> defs;
    std::vector<std::unique_ptr<GunnsBasicLink> > links;
    std::vector<int> types;
    GunnsMultiLinkConnector spot;
    int preCount, postCount, throwPre, throwPost; bool initFail;
    std::function<void()> pre, post;
    struct Pending { GunnsMultiLinkConnector* c; int link, port; };
    std::vector<Pending> pending;
    virtual void initNodes(const std::string& name) {
        GunnsNodeList& l = netNodeList;
        for (int i = 0; i < n; ++i) l.mNodes[i + netSuperNodesOffset].initialize(name + createNodeName(i), 0.0);
        if (!netIsSubNetwork) { l.mNodes[n].initialize(name + ".GROUND", 0.0); netSolver.initializeNodes(l); }
    }
    int at(int p) const { return p < n ? p + netSuperNodesOffset : netNodeList.mNumNodes - 1; }
    static GunnsBasicLink* make(const LinkDef& d, const std::string& nm, GunnsNodeList* list, std::vector<GunnsBasicLink*>& v, int p0, int p1) {
        switch (d.type) {
            case BasicNet::POT: { GunnsBasicPotential* c = new GunnsBasicPotential; GunnsBasicPotentialConfigData k(nm, list, d.a); GunnsBasicPotentialInputData i(false, 0.0, d.b); c->initialize(k, i, v, p0, p1); return c; }
            case BasicNet::SRC: { GunnsBasicSource* c = new GunnsBasicSource; GunnsBasicSourceConfigData k(nm, list); GunnsBasicSourceInputData i(false, 0.0, d.b); c->initialize(k, i, v, p0, p1); return c; }
            case BasicNet::CAP: { GunnsBasicCapacitor* c = new GunnsBasicCapacitor; GunnsBasicCapacitorConfigData k(nm, list); GunnsBasicCapacitorInputData i(false, 0.0, d.a, d.b); c->initialize(k, i, v, p0, p1); return c; }
            case BasicNet::SIM: { SimLink* c = new SimLink; c->base = d.a; c->src = d.b; c->init(nm, list, v, p0, p1); return c; }
            default: { GunnsBasicConductor* c = new GunnsBasicConductor; GunnsBasicConductorConfigData k(nm, list, d.a); GunnsBasicConductorInputData i(false, 0.0); c->initialize(k, i, v, p0, p1); return c; }
        }
    }
    virtual void initNetwork() {
        if (initFail) throw TsInitializationException("simulated", "SimNetwork", "bad data");
        for (size_t k = 0; k < defs.size(); ++k) { links.push_back(std::unique_ptr<GunnsBasicLink>(make(defs[k], mName + ".l" + std::to_string(k), &netNodeList, netLinks, at(defs[k].p0), at(defs[k].p1)))); types.push_back(defs[k].type); }
        for (auto& q : pending) q.c->addConnection(links[q.link].get(), q.port, 0);
        if (!netIsSubNetwork) { GunnsConfigData c(mName, 1e-6, 1e-8, 20, 20); netSolver.initialize(c, netLinks); }
    }
    virtual void stepSpottersPre(const double)  { ++preCount; if (pre) pre(); if (throwPre == 1) throw std::runtime_error("simulated spotter fault"); if (throwPre == 2) throw 7; }
    virtual void stepSpottersPost(const double) { ++postCount; if (post) post(); if (throwPost == 1) throw std::runtime_error("simulated spotter fault"); if (throwPost == 2) throw 7; }
    SimLink* sim(size_t k) { return k < links.size() && types[k] == BasicNet::SIM ? static_cast<SimLink*>(links[k].get()) : 0; }
};

class SimSuper : public GunnsBasicSuperNetwork {
  public:
    explicit SimSuper(const std::string& n, std::vector<SimNetwork*>* sink = 0) : GunnsBasicSuperNetwork(n), joints(0), preCount(0), postCount(0), made(sink ? *sink : own) {}
    int joints, preCount, postCount; std::vector<SimNetwork*> own; std::vector<SimNetwork*>& made;
    virtual GunnsNetworkBase* createJointNetwork(const int) {
        std::vector<SimNetwork::LinkDef> d; d.push_back(SimNetwork::LinkDef{BasicNet::COND, 0, 1, 0.01, 0.0});
        SimNetwork* s = new SimNetwork(mName + "joint" + std::to_string(joints++), 1, d);
        made.push_back(s);
        return s;
    }
    virtual void registerJoints() {}
    virtual void stepSpottersPre(const double) { ++preCount; }
    virtual void stepSpottersPost(const double) { ++postCount; }
};

// op sub: nodes;  op slink: sub type p0 p1 a b;  op join: subA linkA portA subB linkB portB
void genN01(Rng& r, Plan& p, bool deep) {
    const int k = r.irange(1, 4);
    std::vector<int> nn, nl;
    for (int s = 0; s < k; ++s) {
        const int n = r.irange(1, 4); nn.push_back(n); p.add("sub", {(double)n});
        for (int i = 0; i < n; ++i) p.add("slink", {(double)s, (double)(r.chance(0.4) ? BasicNet::CAP : BasicNet::COND), (double)i, (double)n, r.logRange(0.05, 20), r.range(0, 50)});
        const int e = r.irange(1, 4);
        for (int i = 0; i < e; ++i) { const int t = r.pick(std::vector<int>{BasicNet::COND, BasicNet::POT, BasicNet::SRC, BasicNet::SIM}); int a = r.irange(0, n), b = r.irange(0, n); if (a == b) a = a == n ? 0 : n; p.add("slink", {(double)s, (double)t, (double)a, (double)b, r.logRange(0.05, 20), r.range(-20, 20)}); }
        nl.push_back(n + e);
    }
    const int j = k > 1 ? r.irange(0, 4) : 0;
    for (int i = 0; i < j; ++i) { int a = r.irange(0, k - 1), b = r.irange(0, k - 1); if (a == b) b = (a + 1) % k; p.add("join", {(double)a, (double)r.irange(0, nl[a] - 1), (double)r.irange(0, 1), (double)b, (double)r.irange(0, nl[b] - 1), (double)r.irange(0, 1), r.chance(0.4) ? (double)r.irange(1, 3) : 0.0, (double)r.irange(0, 9)}); }
    p.set("nested", r.irange(0, 2));   // how subs reach the super: direct, via an intermediate super, mixed with duplicates
    p.set("island", r.irange(0, 2));
    p.set("mutex", r.chance(0.3));
    p.set("lazy", r.chance(0.4)); p.set("innerjoin", r.chance(0.5));
    p.set("initfail", r.chance(0.03) ? r.irange(0, k - 1) : -1);
    const int steps = r.irange(3, deep ? 40 : 20);
    for (int s = 0; s < steps; ++s) {
        while (r.chance(0.4)) {
            const double u = r.u();
            if (u < 0.5) p.add("param", {(double)r.irange(0, k - 1), (double)r.irange(0, 8), r.logRange(1e-2, 50), r.range(-20, 20)});
            else if (u < 0.7) p.add("port", {(double)r.irange(0, k - 1), (double)r.irange(0, 8), (double)r.irange(0, 1), (double)r.irange(0, 20)});
            else if (u < 0.8) p.add("block", {(double)r.irange(0, k - 1), (double)r.irange(0, 8), (double)r.irange(0, 1), r.u()});
            else if (u < 0.88) p.add("fault", {(double)r.irange(0, k - 1), (double)r.irange(0, 5)});
            else if (u < 0.93) p.add("subupdate", {(double)r.irange(0, k - 1)});
            else if (u < 0.96) p.add("lock", {(double)r.irange(0, 1)});
            else p.add("restart");
        }
        p.add("step", {r.pick(std::vector<double>{0.0125, 0.1, 1.0})});
    }
    p.add("clear"); p.add("step", {0.1}); p.add("step", {0.1});
}

void runN01(const Plan& p, Ctx& ctx) {
    HsTap tap;
    std::vector<std::unique_ptr<SimNetwork> > subs; std::vector<std::vector<SimNetwork::LinkDef> > defs; std::vector<int> nn;
    for (auto& o : p.ops) {
        if (o.kind == "sub") { nn.push_back(std::max(1, o.i(0))); defs.push_back({}); }
        else if (o.kind == "slink" && !defs.empty()) { const int s = o.i(0) % (int)defs.size(); SimNetwork::LinkDef d{o.i(1), std::min(o.i(2), nn[s]), std::min(o.i(3), nn[s]), o.d(4, 1), o.d(5)}; if (d.p0 == d.p1) d.p1 = d.p0 == nn[s] ? 0 : nn[s]; defs[s].push_back(d); }
    }
    if (nn.empty()) return;
    for (size_t s = 0; s < nn.size(); ++s) subs.push_back(std::unique_ptr<SimNetwork>(new SimNetwork("sub" + std::to_string(s), nn[s], defs[s])));
    const int k = static_cast<int>(subs.size());
    std::vector<SimNetwork*> made;
    SimSuper super("super", &made), inner("inner", &made);
    const int nested = p.geti("nested");
    if (nested) { for (int s = 0; s < k; s += 2) inner.addSubNetwork(subs[s].get()); }
    // Locations within the inner super-network may be joined there, before it is added to the outer one.
    const bool early = nested == 1 && p.geti("innerjoin");
    bool merged = !early;
    auto merge = [&]() { if (!merged) { super.addSubNetwork(&inner); merged = true; } };
    if (nested == 1 && !early) super.addSubNetwork(&inner);
    const bool lazy = p.geti("lazy") && nested == 0;                     // sub-networks come along with the locations that are joined
    auto addAll = [&]() {
        for (int s = 0; s < k; ++s) super.addSubNetwork(subs[s].get());  // re-adding is harmless
        for (int s = 0; s < k; ++s) ctx.check(super.isSubNetworkAdded(subs[s].get()), fmt("compose: sub-network %d did not join the super-network", s));
    };
    if (!lazy && !early) addAll();
    // Connectors are part of the sub-network drawings; each joins one link port to the joint's node 0.
    std::vector<std::unique_ptr<GunnsMultiLinkConnector> > conns;
    struct Join { int s, l, port; SimNetwork* joint; };
    std::vector<Join> joins;
    std::vector<std::pair<GunnsMultiLinkConnector*, SimNetwork*> > placed;
    for (auto& o : p.ops) if (o.kind == "join") {
        const int a = o.i(0) % k, b = o.i(3) % k;
        if (a == b || defs[a].empty() || defs[b].empty()) continue;
        // A link port is drawn into one location only.
        auto taken = [&](int s, int link, int port) { for (auto& j : joins) if (j.s == s && j.l == link % (int)defs[s].size() && j.port == port % 2) return true; return false; };
        if (taken(a, o.i(1), o.i(2)) || taken(b, o.i(4), o.i(5))) continue;
        auto connect = [&](int s) { conns.push_back(std::unique_ptr<GunnsMultiLinkConnector>(new GunnsMultiLinkConnector(subs[s].get()))); return conns.back().get(); };
        auto attach = [&](int s, int link, int port, GunnsMultiLinkConnector* c, SimNetwork* at) { joins.push_back(Join{s, link % (int)defs[s].size(), port % 2, at}); subs[s]->pending.push_back(SimNetwork::Pending{c, joins.back().l, port % 2}); };
        const int reuse = placed.empty() ? 0 : o.i(6);
        if (reuse == 0) {
            GunnsMultiLinkConnector *c1 = connect(a), *c2 = connect(b);
            const bool inside = !merged && a % 2 == 0 && b % 2 == 0;
            if (!inside) merge();
            if (inside) { inner.joinLocations(c1, c2); ctx.fault("joint_in_inner"); } else super.joinLocations(c1, c2);
            SimSuper& holder = inside ? inner : super;
            ctx.check(holder.getLocationJoint(c1) == super.made.back() && holder.getLocationJoint(c2) == super.made.back(), "compose: a joined location is not at its joint network");
            attach(a, o.i(1), o.i(2), c1, super.made.back()); attach(b, o.i(4), o.i(5), c2, super.made.back());
            placed.push_back({c1, super.made.back()}); placed.push_back({c2, super.made.back()});
        } else {
            // A location that is already joined brings the new one to its own joint, whichever is named first.
            auto at = placed[std::abs(o.i(7)) % placed.size()];
            merge();
            const size_t n0 = super.made.size();
            if (reuse == 3) {
                bool refused = false;
                try { super.joinLocations(at.first, placed[std::abs(o.i(7) + 1) % placed.size()].first); } catch (TsInitializationException&) { refused = true; }
                ctx.check(refused, "compose: two locations that are both joined already were joined again"); ctx.fault("joint_refused");
                ctx.check(super.made.size() == n0 && super.getLocationJoint(at.first) == at.second, "compose: a refused join changed a joint");
                continue;
            }
            GunnsMultiLinkConnector* c = connect(a);
            if (reuse == 1) super.joinLocations(at.first, c); else super.joinLocations(c, at.first);
            ctx.check(super.made.size() == n0 && super.getLocationJoint(c) == at.second && super.getLocationJoint(at.first) == at.second, "compose: a location joined to one that already has a joint did not end up at that joint");
            attach(a, o.i(1), o.i(2), c, at.second); placed.push_back({c, at.second}); ctx.fault("joint_shared");
        }
        if (merged) for (auto& j : placed) ctx.check(super.mJoints.at(j.first->getJointIndex())->network == j.second, "compose: a joined location's joint index names another joint");
        if (merged) for (auto& j : joins) ctx.check(super.isSubNetworkAdded(subs[j.s].get()) && super.isSubNetworkAdded(j.joint), "compose: joining a location did not bring its network into the super-network");
        ctx.fault("joint");
    }
    merge();
    if (lazy || early) addAll();
    for (auto& j : placed) ctx.check(super.getLocationJoint(j.first) == j.second && super.mJoints.at(j.first->getJointIndex())->network == j.second, "compose: a joint made inside a super-network is lost when that joins another one");
    super.netSolverConfig.mMinorStepLimit = 20; super.netSolverConfig.mDecompositionLimit = 20;
    super.registerSuperNodes();
    std::vector<SimNetwork*> all; for (auto& s : subs) all.push_back(s.get()); for (auto j : super.made) all.push_back(j);
    const int initFail = p.geti("initfail", -1);
    if (initFail >= 0 && initFail < k) { subs[initFail]->initFail = true; }
    int total = 0; for (auto s : all) total += s->n;
    std::vector<bool> used(total, false);
    for (auto s : all) for (int i = 0; i < s->n; ++i) {
        const int at = s->getNodeOffset() + i;
        ctx.check(at >= 0 && at < total && !used[at], "compose: two sub-networks share a node of the super-network");
        used[at] = true;
    }
    super.initialize();
    if (initFail >= 0 && initFail < k) {
        ctx.fault("init_failure");
        ctx.check(tap.count(TS_HS_FATAL) >= 1, "init-failure: a failed initialisation was not reported as fatal");
        return;
    }
    ctx.check(tap.count(TS_HS_FATAL) == 0, "compose: initialisation reported a fatal error");
    super.netSolver.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island")));
    if (p.geti("mutex")) super.setMutexEnabled(true);

    // Flat twin: one network holding the same nodes and links, in the same order.
    std::sort(all.begin(), all.end(), [](SimNetwork* x, SimNetwork* y) { return x->getNodeOffset() < y->getNodeOffset(); });
    std::unique_ptr<GunnsBasicNode[]> tn(new GunnsBasicNode[total + 1]); GunnsNodeList tl; tl.mNumNodes = total + 1; tl.mNodes = tn.get();
    Gunns twin; twin.initializeNodes(tl);
    std::vector<GunnsBasicLink*> tlinks; std::vector<std::unique_ptr<GunnsBasicLink> > town; std::map<std::pair<SimNetwork*, int>, GunnsBasicLink*> map;
    for (auto s : all) for (size_t l = 0; l < s->defs.size(); ++l) {
        const SimNetwork::LinkDef& d = s->defs[l];
        auto at = [&](int q) { return q < s->n ? q + s->getNodeOffset() : total; };
        GunnsBasicLink* x = SimNetwork::make(d, "t" + std::to_string(town.size()), &tl, tlinks, at(d.p0), at(d.p1));
        town.push_back(std::unique_ptr<GunnsBasicLink>(x)); map[{s, (int)l}] = x;
    }
    for (auto& j : joins) map[{subs[j.s].get(), j.l}]->setPort(j.port, j.joint->getNodeOffset());
    GunnsConfigData tc("twin", 1e-6, 1e-6, 20, 20); twin.initialize(tc, tlinks); twin.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island")));
    for (auto s : all) for (size_t l = 0; l < s->links.size(); ++l) for (int q = 0; q < 2; ++q)
        ctx.check(s->links[l]->getNodeMap()[q] == map[{s, (int)l}]->getNodeMap()[q], fmt("compose: %s link %zu port %d sits on super-node %d, expected %d", s->getName().c_str(), l, q, s->links[l]->getNodeMap()[q], map[{s, (int)l}]->getNodeMap()[q]));

    for (const Op& o : p.ops) {
        const int s = std::abs(o.i(0)) % k; SimNetwork* sub = subs[s].get();
        const int l = sub->links.empty() ? -1 : std::abs(o.i(1)) % (int)sub->links.size();
        if (o.kind == "param" && l >= 0) {
            for (GunnsBasicLink* x : {sub->links[l].get(), map[{sub, l}]}) switch (sub->types[l]) {
                case BasicNet::COND: static_cast<GunnsBasicConductor*>(x)->setDefaultConductivity(o.d(2)); break;
                case BasicNet::POT: static_cast<GunnsBasicPotential*>(x)->setSourcePotential(o.d(3)); break;
                case BasicNet::SRC: static_cast<GunnsBasicSource*>(x)->setFluxDemand(o.d(3)); break;
                case BasicNet::CAP: static_cast<GunnsBasicCapacitor*>(x)->editCapacitance(true, o.d(2)); break;
                default: static_cast<SimLink*>(x)->base = o.d(2); break;
            }
            ctx.fault("parameter_step");
        } else if (o.kind == "port" && l >= 0) {
            const int node = o.i(3) % (total + 1);
            const bool a = sub->links[l]->setPort(o.i(2), node), b = map[{sub, l}]->setPort(o.i(2), node);
            ctx.check(a == b, "port: a sub-network link accepts different port moves than the same link in one network"); ctx.fault("port_move");
        } else if (o.kind == "block" && l >= 0) { sub->links[l]->setMalfBlockage(o.b(2), o.d(3)); map[{sub, l}]->setMalfBlockage(o.b(2), o.d(3)); ctx.fault("blockage"); }
        else if (o.kind == "fault") {
            const int f = o.i(1);
            if (f < 2) sub->throwPre = f + 1; else if (f < 4) sub->throwPost = f - 1;
            else for (size_t q = 0; q < sub->links.size(); ++q) if (sub->sim(q)) { sub->sim(q)->fault = SimLink::THROW; sub->sim(q)->faultAt = 1; static_cast<SimLink*>(map[{sub, (int)q}])->fault = SimLink::THROW; static_cast<SimLink*>(map[{sub, (int)q}])->faultAt = 1; }
        } else if (o.kind == "clear") { for (auto x : all) { x->throwPre = x->throwPost = 0; for (size_t q = 0; q < x->links.size(); ++q) if (x->sim(q)) { x->sim(q)->clearScript(); static_cast<SimLink*>(map[{x, (int)q}])->clearScript(); } } }
        else if (o.kind == "subupdate") { const int c0 = sub->preCount; std::vector<double> before; for (int i = 0; i < total; ++i) before.push_back(super.netNodeList.mNodes[i].getPotential()); sub->update(0.1); sub->initialize(); sub->restart(); ctx.check(sub->preCount == c0, "sub-update: a sub-network inside a super-network stepped itself"); for (int i = 0; i < total; ++i) ctx.check(super.netNodeList.mNodes[i].getPotential() == before[i], "sub-update: a sub-network's own update moved super-network nodes"); ctx.fault("sub_update"); }
        else if (o.kind == "restart") { super.restart(); twin.restart(); ctx.fault("restart"); }
        else if (o.kind == "lock") super.setMutexEnabled(o.b(0));
        else if (o.kind == "step") {
            std::vector<int> pc, qc; for (auto x : all) { pc.push_back(x->preCount); qc.push_back(x->postCount); }
            const int sp = super.preCount, sq = super.postCount; const long errs = tap.count(TS_HS_ERROR);
            bool preThrow = false, postThrow = false, linkThrow = false;
            for (auto x : all) { preThrow = preThrow || x->throwPre; postThrow = postThrow || x->throwPost; for (size_t q = 0; q < x->links.size(); ++q) linkThrow = linkThrow || (x->sim(q) && x->sim(q)->fault); }
            try { super.update(o.d(0, 0.1)); }
            catch (...) { ctx.violate("containment: an exception escaped the super-network's update"); }
            bool twinThrew = false;
            if (!preThrow) { try { twin.step(o.d(0, 0.1)); } catch (...) { twinThrew = true; } }
            ctx.advance(o.d(0, 0.1));
            const bool faulty = preThrow || postThrow || linkThrow || twinThrew;
            if (faulty) {
                ctx.fault(preThrow ? "spotter_throws_before" : linkThrow ? "link_throws" : postThrow ? "spotter_throws_after" : "numerical_failure");
                ctx.check(tap.count(TS_HS_ERROR) > errs, "containment: a contained exception was not reported to health and status");
            } else {
                for (size_t x = 0; x < all.size(); ++x) ctx.check(all[x]->preCount == pc[x] + 1 && all[x]->postCount == qc[x] + 1, fmt("once: sub-network %zu's spotters ran %d times before and %d times after the solver in one update", x, all[x]->preCount - pc[x], all[x]->postCount - qc[x]));
                ctx.check(super.preCount == sp + 1 && super.postCount == sq + 1, "once: the super-network's spotters did not run exactly once");
            }
            // Same solution as the flat network, sub-network by sub-network.
            if (!(linkThrow || twinThrew)) for (auto x : all) {
                for (int i = 0; i < x->n; ++i) {
                    const double a = super.netNodeList.mNodes[x->getNodeOffset() + i].getPotential(), b = tn[x->getNodeOffset() + i].getPotential();
                    ctx.check(near(a, b, 1e-7, 1e-9) || std::fabs(b) > 1e10, fmt("equivalence: %s node %d is at %.12g in the super-network, %.12g in one network", x->getName().c_str(), i, a, b));
                }
                for (size_t l2 = 0; l2 < x->links.size(); ++l2) {
                    const double a = x->links[l2]->getFlux(), b = map[{x, (int)l2}]->getFlux();
                    ctx.check(near(a, b, 1e-7, 1e-6) || std::fabs(b) > 1e9, fmt("equivalence: %s link %zu carries %.12g, in one network %.12g", x->getName().c_str(), l2, a, b));
                }
            }
            ctx.logd("p0", super.netNodeList.mNodes[0].getPotential());
            ctx.state(Ctx::hashStr(fmt("%zu/%d/%d/%d", all.size(), total, faulty, (int)joins.size())));
        }
    }
}

// ---- N02 ------------------------------------------------------------------------------------------
void genN02(Rng& r, Plan& p, bool deep) {
    const int nets = r.irange(1, 2), readers = r.irange(1, 3);
    p.set("nets", nets); p.set("readers", readers); p.set("super", r.chance(0.4));
    p.set("steps", r.irange(2, deep ? 12 : 6));
    const int n = r.irange(2, deep ? 20 : 10);
    for (int i = 0; i < n; ++i) p.add("access", {(double)r.irange(0, readers - 1), (double)r.irange(0, nets - 1), (double)r.irange(0, 8), r.range(-10, 10)});
    const int f = r.irange(0, 3);
    for (int i = 0; i < f; ++i) p.add("fault", {(double)r.irange(0, nets - 1), (double)r.irange(0, 6), (double)r.irange(1, 5)});
    genPreempts(r, p, readers + nets, deep);
}

void runN02(const Plan& p, Ctx& ctx) {
    HsTap tap;
    const int nets = std::max(1, p.geti("nets", 1)), readers = std::max(1, p.geti("readers", 1)), steps = p.geti("steps", 3);
    const bool useSuper = p.geti("super") != 0;
    struct Guarded { std::unique_ptr<SimNetwork> sub; std::unique_ptr<SimSuper> sup; long begun = 0, ended = 0; int updates = 0; bool inUpdate = false; int inside = 0; };
    std::vector<Guarded> g(nets);
    for (int k = 0; k < nets; ++k) {
        std::vector<SimNetwork::LinkDef> d;
        d.push_back({BasicNet::COND, 0, 2, 1.0, 0}); d.push_back({BasicNet::COND, 0, 1, 2.0, 0}); d.push_back({BasicNet::COND, 1, 2, 1.0, 0}); d.push_back({BasicNet::SIM, 0, 2, 0.5, 1.0});
        g[k].sub.reset(new SimNetwork("net" + std::to_string(k), 2, d));
        Guarded* q = &g[k];
        // Every update must run alone: no holder of the network's mutex may be inside at the same time.
        q->sub->pre = [q, &ctx]() { ++q->updates; q->inUpdate = true; ctx.check(q->inside == 0, "exclusion: the network updates while another thread holds its mutex"); ++q->begun; Threads::point(true); if (q->sub->throwPre || q->sub->sim(3)->fault) q->inUpdate = false; };
        q->sub->post = [q, &ctx]() { Threads::point(true); ctx.check(q->inside == 0, "exclusion: the network updates while another thread holds its mutex"); ++q->ended; q->inUpdate = false; };
        if (useSuper) { q->sup.reset(new SimSuper("super")); q->sup->addSubNetwork(q->sub.get()); q->sup->netSolverConfig.mMinorStepLimit = 20; q->sup->netSolverConfig.mDecompositionLimit = 20; q->sup->registerSuperNodes(); q->sup->initialize(); q->sup->setMutexEnabled(true); }
        else { q->sub->initialize(); q->sub->setMutexEnabled(true); }
    }
    int finished = 0;
    {
        Threads th(ctx, p);
        for (int k = 0; k < nets; ++k) th.spawn("update" + std::to_string(k), [&, k]() {
            for (int s = 0; s < steps; ++s) {
                { Threads::Quiet q; SimNetwork* n = g[k].sub.get(); n->throwPre = n->throwPost = 0; n->sim(3)->clearScript();
                  for (auto& o : p.ops) if (o.kind == "fault" && o.i(0) % nets == k && o.i(1) == s) { if (o.i(2) < 3) n->throwPre = o.i(2); else if (o.i(2) < 5) n->throwPost = o.i(2) - 2; else { n->sim(3)->fault = SimLink::THROW; n->sim(3)->faultAt = 1; } ctx.fault("exception_in_update"); } }
                if (useSuper) g[k].sup->update(0.1); else g[k].sub->update(0.1);
                { Threads::Quiet q; g[k].inUpdate = false; ctx.advance(0.1); }
                th.current()->pass();
            }
            ++finished;
        });
        for (int t = 0; t < readers; ++t) th.spawn("user" + std::to_string(t), [&, t]() {
            for (auto& o : p.ops) if (o.kind == "access" && o.i(0) % readers == t) {
                Guarded& q = g[o.i(1) % nets];
                pthread_mutex_t* m = useSuper ? q.sup->getMutex() : q.sub->getMutex();
                const int how = o.i(2);
                try {
                    const pthread_mutex_t* cm = m;
                    GunnsMutexLock viaConst(*cm, how == 7), plain(*m, how == 0 || how == 3);
                    GunnsMutexLock& lock = how >= 7 ? viaConst : plain;
                    if (how != 0 && how != 3 && how != 7) lock.lock();
                    if (how >= 2 && how != 7) lock.lock();                  // repeated lock by the same holder
                    { Threads::Quiet z; ctx.check(!q.inUpdate && q.inside == 0, "exclusion: a thread obtained the network's mutex while the network is updating or another thread holds it"); ++q.inside; }
                    static_cast<GunnsBasicConductor*>(q.sub->links[0].get())->setDefaultConductivity(1.0 + std::fabs(o.d(3)));
                    Threads::point(true);
                    { Threads::Quiet z; ctx.check(!q.inUpdate && q.inside == 1, "exclusion: the network changed while its mutex was held"); --q.inside; }
                    if (how == 4) { lock.unlock(); lock.unlock(); }
                    if (how == 5) { ctx.fault("exception_in_critical_section"); throw std::runtime_error("simulated user fault"); }
                    if (how == 6) { lock.unlock(); lock.lock(); }
                } catch (const std::runtime_error&) {}
                th.current()->pass();
            }
            ++finished;
        });
        th.run();
        ctx.state(th.schedule); ctx.log(fmt("%llx", (unsigned long long)th.schedule));
    }
    ctx.check(finished == nets + readers, "progress: a thread did not finish");
    for (auto& q : g) {
        ctx.check(q.updates == steps, fmt("progress: a network ran %d of %d updates", q.updates, steps));
        pthread_mutex_t* m = useSuper ? q.sup->getMutex() : q.sub->getMutex();
        Plan none; Threads th(ctx, none);
        th.spawn("probe", [&]() { GunnsMutexLock l(*m, true); });
        th.run();
    }
}

Register n01({"N01", "distinct = a different composition of sub-networks, joints and disturbance history; trivial = no step compared",
    "number of networks and nodes, joints, fault seen", {{"super", 1.0, genN01, runN01}}, 40000, 3000000,
    {"GunnsNetworkBase, GunnsSuperNetworkBase, GunnsBasicSuperNetwork, GunnsMultiLinkConnector, solver and basic links (real code)"},
    {"the drawings (node, link and spotter lists): simulated sub-networks"}, {}});
Register n02({"N02", "distinct = a different executed interleaving of updates and mutex holders; trivial = one thread only", "hash of the executed thread interleaving",
    {{"mutex", 1.0, genN02, runN02}}, 60000, 3000000, {"GunnsMutexLock, GunnsNetworkBase, GunnsSuperNetworkBase, solver (real code)"},
    {"threads and mutexes: simulated"}, {"Sequentially consistent memory", "Every user takes the mutex, as the network documents"}});
} // namespace
} // namespace dst
