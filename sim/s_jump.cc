// S08: jumpers (hoses, cables), their plugs and sockets. A reference model of who is plugged where drives a twin
// network of plain conductors, which the real network must match in every step.
#include "basicnet.hh"
#include "fluidnet.hh"
#include "core/GunnsBasicJumper.hh"
#include "core/GunnsBasicJumperPlug.hh"
#include "core/GunnsBasicSocket.hh"
#include "core/GunnsFluidJumper.hh"
#include "core/GunnsFluidJumperPlug.hh"
#include "core/GunnsFluidSocket.hh"
#include "software/exceptions/TsInitializationException.hh"
namespace dst {
namespace {
/// What a network manager supplies: the plug's request and status fields.
template <class Base> struct Plug : Base {
    int active, last, con, dis, none;
    Plug(const std::string& nm, int sockets) : Base(nm, sockets), active(sockets), last(sockets), con(sockets), dis(sockets), none(sockets) {}
    void setActiveConnection(const int i) { active = i; }   void setLastDisconnection(const int i) { last = i; }
    void setConnectionRequest(const int i) { con = i; }     void setDisconnectionRequest(const int i) { dis = i; }
    int getActiveConnection() { return active; }            int getLastDisconnection() { return last; }
    int getConnectionRequest() { return con; }              int getDisconnectionRequest() { return dis; }
    int getNoConnection() { return none; }
};
struct SockSpec { int in, amb; double g; bool seal; };
struct JumpSpec { int port[2], init[2]; double g; bool plug[2], seal[2]; };
/// The reference: who owns each socket, and where each plug's end of its jumper is.
struct Ref {
    std::vector<SockSpec> s; std::vector<JumpSpec> j; std::vector<int> owner; int none;
    struct P { int active, node, direct, con, dis, last; }; std::vector<P> p; std::vector<char> open;     // open: what the socket saw when its turn came
    void init() { none = s.size(); owner.assign(s.size(), -1); p.assign(2 * j.size(), P{none, 0, -99, none, none, none}); open.assign(s.size(), 1); for (size_t k = 0; k < p.size(); ++k) { p[k].node = j[k / 2].port[k % 2]; const int at = j[k / 2].init[k % 2]; if (j[k / 2].plug[k % 2] && at < none) connect(k, at); } }
    void connect(int k, int at) { if (owner[at] < 0) { owner[at] = k; p[k].active = at; p[k].node = s[at].in; p[k].last = none; } }
    void disconnect(int k, int at) { if (owner[at] == k) { owner[at] = -1; p[k].active = none; } p[k].node = s[at].amb; p[k].last = at; }
    void step(Ctx& ctx) {
        for (size_t i = 0; i < s.size(); ++i) open[i] = owner[i] < 0;
        for (size_t k = 0; k < p.size(); ++k) if (j[k / 2].plug[k % 2]) {
            P& q = p[k];
            if (q.direct >= 0 && q.direct <= none && q.direct != q.active) {
                if (q.active != none) disconnect(k, q.active);
                if (q.direct != none) { if (owner[q.direct] >= 0) ctx.probe("direct_connection_refused"); connect(k, q.direct); }
            }
            if (q.dis != none) { if (q.active != none && q.active != q.dis) ctx.probe("disconnection_ignored"); else disconnect(k, q.dis); }
            if (q.con != none) { if (q.active != none) ctx.probe("connection_ignored"); else { if (owner[q.con] >= 0) ctx.probe("socket_contended"); connect(k, q.con); } }
            q.con = q.dis = none;
        }
    }
    /// A restart drops standing requests and leaves every plug where it is, but for one that can go straight to its direct connection.
    void restart() { for (size_t k = 0; k < p.size(); ++k) if (j[k / 2].plug[k % 2]) { P& q = p[k]; q.con = q.dis = none; if (q.direct >= 0 && q.direct < none && q.direct != q.active && owner[q.direct] < 0) { if (q.active != none) disconnect(k, q.active); connect(k, q.direct); } } }
    double gSock(int i, double g) const { return open[i] && !s[i].seal ? g : 0.0; }
    double gJump(int i, double g) const { for (int e = 0; e < 2; ++e) if (j[i].plug[e] && j[i].seal[e] && p[2 * i + e].active == none) return 0.0; return p[2 * i].node == p[2 * i + 1].node ? 0.0 : g; }
};
Ref spec(const Plan& p, int n) {
    Ref r; auto nd = [&](int i) { return std::min(std::max(i, 0), n); };
    for (auto& o : p.ops) if (o.kind == "sock") { SockSpec s{nd(o.i(0)), nd(o.i(1)), std::max(0.0, o.d(2)), o.b(3)}; if (s.in == s.amb) s.amb = s.in == n ? 0 : n; r.s.push_back(s); }
    for (auto& o : p.ops) if (o.kind == "jump") {
        const int ns = r.s.size(); JumpSpec j{{nd(o.i(0)), nd(o.i(1))}, {std::min(std::max(o.i(2), 0), ns), std::min(std::max(o.i(3), 0), ns)}, std::max(0.0, o.d(4)), {o.b(5), o.b(6)}, {o.b(7), o.b(8)}};
        if (j.port[0] == j.port[1]) j.port[1] = j.port[0] == n ? 0 : n;
        for (int e = 0; e < 2; ++e) for (size_t k = 0; k < r.j.size() + 1; ++k) for (int f = 0; f < 2; ++f) { const JumpSpec& x = k < r.j.size() ? r.j[k] : j; if (!(k == r.j.size() && f >= e) && x.plug[f] && j.plug[e] && x.init[f] == j.init[e]) j.init[e] = ns; }   // a taken socket
        r.j.push_back(j);
    }
    r.init(); return r;
}
struct BasicKind { typedef GunnsBasicSocket Sock; typedef GunnsBasicJumper Jump; typedef Plug<GunnsBasicJumperPlug> Pl; };
struct FluidKind { typedef GunnsFluidSocket Sock; typedef GunnsFluidJumper Jump; typedef Plug<GunnsFluidJumperPlug> Pl; };
template <class K> struct Hoses {
    std::vector<std::unique_ptr<typename K::Sock> > s; std::vector<std::unique_ptr<typename K::Jump> > j; std::vector<std::unique_ptr<typename K::Pl> > pl;
    std::vector<GunnsBasicConductor*> bc; std::vector<GunnsFluidConductor*> fc; std::vector<std::unique_ptr<GunnsBasicLink> > twin;   // plain conductors: sockets, then jumpers
};
void sockInit(GunnsBasicSocket* x, const std::string& nm, GunnsNodeList* l, const SockSpec& s, std::vector<GunnsBasicLink*>& ls) { x->initialize(GunnsBasicSocketConfigData(nm, l, s.g, s.seal), GunnsBasicSocketInputData(false, 0), ls, s.in, s.amb); }
void sockInit(GunnsFluidSocket* x, const std::string& nm, GunnsNodeList* l, const SockSpec& s, std::vector<GunnsBasicLink*>& ls) { x->initialize(GunnsFluidSocketConfigData(nm, l, s.g, 0, s.seal), GunnsFluidSocketInputData(false, 0, false, 0), ls, s.in, s.amb); }
void jumpInit(GunnsBasicJumper* x, const std::string& nm, GunnsNodeList* l, const JumpSpec& j, Plug<GunnsBasicJumperPlug>* a, Plug<GunnsBasicJumperPlug>* b, std::vector<GunnsBasicLink*>& ls) { x->initialize(GunnsBasicJumperConfigData(nm, l, j.g, a, b, j.seal[0], j.seal[1]), GunnsBasicJumperInputData(false, 0, j.init[0], j.init[1]), ls, j.port[0], j.port[1]); }
void jumpInit(GunnsFluidJumper* x, const std::string& nm, GunnsNodeList* l, const JumpSpec& j, Plug<GunnsFluidJumperPlug>* a, Plug<GunnsFluidJumperPlug>* b, std::vector<GunnsBasicLink*>& ls) { x->initialize(GunnsFluidJumperConfigData(nm, l, j.g, 0, a, b, j.seal[0], j.seal[1]), GunnsFluidJumperInputData(false, 0, false, 0, j.init[0], j.init[1]), ls, j.port[0], j.port[1]); }
GunnsBasicLink* plain(const BasicKind*, const std::string& nm, GunnsNodeList* l, double g, std::vector<GunnsBasicLink*>& ls, int a, int b) { auto* c = new GunnsBasicConductor; c->initialize(GunnsBasicConductorConfigData(nm, l, g), GunnsBasicConductorInputData(false, 0), ls, a, b); return c; }
GunnsBasicLink* plain(const FluidKind*, const std::string& nm, GunnsNodeList* l, double g, std::vector<GunnsBasicLink*>& ls, int a, int b) { auto* c = new GunnsFluidConductor; c->initialize(GunnsFluidConductorConfigData(nm, l, g), GunnsFluidConductorInputData(false, 0), ls, a, b); return c; }
void setG(const BasicKind*, GunnsBasicLink* l, double g) { static_cast<GunnsBasicConductor*>(l)->setDefaultConductivity(g); }
void setG(const FluidKind*, GunnsBasicLink* l, double g) { static_cast<GunnsFluidConductor*>(l)->mMaxConductivity = g; }

template <class K> void addHoses(Hoses<K>& h, const Ref& r, GunnsNodeList* list, std::vector<GunnsBasicLink*>& links, int n, bool real) {
    if (real) {
        for (size_t i = 0; i < r.s.size(); ++i) { h.s.emplace_back(new typename K::Sock); sockInit(h.s.back().get(), "sock" + std::to_string(i), list, r.s[i], links); }
        for (size_t i = 0; i < r.j.size(); ++i) {
            for (int e = 0; e < 2; ++e) { h.pl.emplace_back(r.j[i].plug[e] ? new typename K::Pl("plug" + std::to_string(2 * i + e), r.s.size()) : 0); if (h.pl.back()) for (auto& s : h.s) h.pl.back()->addSocket(*s); }
            h.j.emplace_back(new typename K::Jump); jumpInit(h.j.back().get(), "jump" + std::to_string(i), list, r.j[i], h.pl[2 * i].get(), h.pl[2 * i + 1].get(), links);
        }
    } else {
        for (size_t i = 0; i < r.s.size(); ++i) h.twin.emplace_back(plain((K*)0, "ps" + std::to_string(i), list, r.s[i].g, links, r.s[i].in, r.s[i].amb));
        for (size_t i = 0; i < r.j.size(); ++i) h.twin.emplace_back(plain((K*)0, "pj" + std::to_string(i), list, r.j[i].g, links, r.j[i].port[0], r.j[i].port[1]));
    }
    (void)n;
}
struct BasicSide {
    BasicNet b; Hoses<BasicKind> h; double dt;
    void build(const Plan& p, bool real) {
        b.n = std::max(1, p.geti("nodes", 3)); b.nodes.reset(new GunnsBasicNode[b.n + 1]); b.list.mNumNodes = b.n + 1; b.list.mNodes = b.nodes.get(); b.net.initializeNodes(b.list);
        int k = 0; for (auto& o : p.ops) if (o.kind == "link") b.addLink(k++, o, false);
        for (int i = 0; i < b.n; ++i) b.addLink(k++, Op("link", {0.0, (double)i, (double)b.n, 0.05}), false);      // no node floats
        addHoses(h, spec(p, b.n), &b.list, b.links, b.n, real);
        b.net.initialize(GunnsConfigData("net", p.get("tol", 1e-6), 1e-8, 20, 20), b.links); b.net.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island", 0))); dt = p.get("dt", 0.1);
    }
    Gunns& net() { return b.net; } std::vector<GunnsBasicLink*>& links() { return b.links; } int n() { return b.n; }
};
struct FluidSide {
    FluidNet f; Hoses<FluidKind> h; double dt;
    void build(const Plan& p, bool real) { f.extra = [&](FluidNet& x) { addHoses(h, spec(p, x.n), &x.list, x.links, x.n, real); }; f.build(p); dt = f.dt; }
    Gunns& net() { return f.net; } std::vector<GunnsBasicLink*>& links() { return f.links; } int n() { return f.n; }
};
int nodeCount(BasicSide& s) { return s.n(); }
void compare(BasicSide& a, BasicSide& b, Ctx& ctx, long step) {
    for (int i = 0; i < a.n(); ++i) { const double x = a.b.net.getPotentialVector()[i], y = b.b.net.getPotentialVector()[i]; ctx.check(std::fabs(x - y) <= 1e-7 * std::max(std::fabs(x), std::fabs(y)) + 1e-9, fmt("hose: step %ld: node %d is at potential %.12g, with plain conductors where the plugs are %.12g", step, i, x, y)); }
    ctx.log(fmt("%ld %.9g", step, a.b.net.getPotentialVector()[0]));
}
void compare(FluidSide& a, FluidSide& b, Ctx& ctx, long step) {
    for (int i = 0; i < a.n(); ++i) {
        PolyFluid &x = a.f.nodes[i].mContent, &y = b.f.nodes[i].mContent;
        const double u[3] = {x.getMass(), x.getTemperature(), a.f.nodes[i].getPotential()}, v[3] = {y.getMass(), y.getTemperature(), b.f.nodes[i].getPotential()}; const char* w[3] = {"mass", "temperature", "pressure"};
        for (int k = 0; k < 3; ++k) ctx.check(std::fabs(u[k] - v[k]) <= 1e-7 * std::max(std::fabs(u[k]), std::fabs(v[k])) + 1e-9, fmt("hose: step %ld: the %s of node %d is %.12g, with plain conductors where the plugs are %.12g", step, w[k], i, u[k], v[k]));
        for (int k = 0; k < a.f.nx; ++k) ctx.check(std::fabs(x.getMassFraction(k) - y.getMassFraction(k)) <= 1e-7, fmt("hose: step %ld: the mixture of node %d differs from that with plain conductors where the plugs are", step, i));
    }
    ctx.log(fmt("%ld %.9g", step, a.f.nodes[0].getPotential()));
}
template <class Side, class K> void run(const Plan& p, Ctx& ctx) {
    Side A, B;
    try { A.build(p, true); B.build(p, false); } catch (TsInitializationException&) { ctx.probe("rejected_configuration"); return; }
    Ref ref = spec(p, A.n()); const size_t base = A.links().size() - ref.s.size() - ref.j.size();
    if (ref.s.empty() || ref.j.empty()) return;
    std::vector<double> blk(ref.s.size() + ref.j.size(), 0.0);
    long step = 0;
    for (auto& o : p.ops) {
        if (o.kind == "con" || o.kind == "dis" || o.kind == "direct") {
            const size_t k = static_cast<size_t>(std::max(0, o.i(0))) % ref.p.size(); if (!A.h.pl[k]) continue;
            Ref::P& q = ref.p[k]; const int at = std::min(std::max(o.i(1), 0), ref.none);
            if (o.kind == "direct") { if (o.i(1) < 0) { A.h.pl[k]->setDirectConnectionRequest(-99); q.direct = -99; } else { A.h.pl[k]->setDirectConnectionRequest(at); q.direct = at; q.con = q.dis = ref.none; A.h.pl[k]->con = A.h.pl[k]->dis = ref.none; } ctx.fault("direct_connection"); }
            else if (q.direct >= 0 && !A.h.pl[k]->mDirectConnectionDisable) continue;          // the two ways to command a plug are not mixed
            else if (o.kind == "con") { A.h.pl[k]->setConnectionRequest(at); q.con = at; ctx.fault("plug_in_request"); }
            else { A.h.pl[k]->setDisconnectionRequest(at); q.dis = at; ctx.fault("unplug_request"); }
        } else if (o.kind == "disable") {
            const size_t k = static_cast<size_t>(std::max(0, o.i(0))) % ref.p.size(); if (!A.h.pl[k]) continue;
            A.h.pl[k]->mDirectConnectionDisable = o.b(1); ctx.fault("direct_connection_disabled");
        } else if (o.kind == "block") {
            const size_t k = static_cast<size_t>(std::max(0, o.i(0))) % blk.size(); for (Side* s : {&A, &B}) s->links()[base + k]->setMalfBlockage(o.b(1), std::min(1.0, std::max(0.0, o.d(2)))); ctx.fault("blockage");
        } else if (o.kind == "restart") {
            for (size_t k = 0; k < ref.p.size(); ++k) if (A.h.pl[k] && A.h.pl[k]->mDirectConnectionDisable) ref.p[k].direct = -99;
            ref.restart(); A.net().restart(); B.net().restart(); ctx.fault("restart");
        } else if (o.kind == "step") {
            for (int m = 0; m < std::max(1, o.i(0)); ++m) {
                ++step;
                for (size_t k = 0; k < ref.p.size(); ++k) if (A.h.pl[k] && A.h.pl[k]->mDirectConnectionDisable) ref.p[k].direct = -99;
                ref.step(ctx);
                for (size_t i = 0; i < ref.s.size(); ++i) setG((K*)0, B.links()[base + i], ref.gSock(i, ref.s[i].g));
                for (size_t i = 0; i < ref.j.size(); ++i) {
                    GunnsBasicLink* l = B.links()[base + ref.s.size() + i]; const double g = ref.gJump(i, ref.j[i].g); const int a = ref.p[2 * i].node, b = ref.p[2 * i + 1].node; setG((K*)0, l, g);
                    if (a != b) { if (l->getNodeMap()[0] == b && l->getNodeMap()[1] == a) { int t = 0; while (t == a || t == b) ++t; l->setPort(1, t); } l->setPort(1, b); l->setPort(0, a); l->setPort(1, b); }
                }
                A.net().step(A.dt); B.net().step(B.dt); ctx.advance(A.dt);
                for (size_t k = 0; k < ref.p.size(); ++k) if (A.h.pl[k]) {
                    auto& pl = *A.h.pl[k];
                    ctx.check(pl.active == ref.p[k].active, fmt("hose: step %ld: plug %zu says it is in socket %d, it is in %d (%d = none)", step, k, pl.active, ref.p[k].active, ref.none));
                    ctx.check(A.h.j[k / 2]->getNodeMap()[k % 2] == ref.p[k].node, fmt("hose: step %ld: the end of hose %zu at plug %zu is at node %d, not at node %d", step, k / 2, k, A.h.j[k / 2]->getNodeMap()[k % 2], ref.p[k].node));
                    ctx.check(pl.con == ref.none && pl.dis == ref.none, fmt("hose: step %ld: a request of plug %zu is still standing after it was processed", step, k));
                }
                for (size_t i = 0; i < ref.s.size(); ++i) {
                    ctx.check(A.h.s[i]->isConnected() == (ref.owner[i] >= 0), fmt("hose: step %ld: socket %zu %s, though %s", step, i, A.h.s[i]->isConnected() ? "is taken" : "is free", ref.owner[i] >= 0 ? "a plug is in it" : "no plug is in it"));
                    for (size_t k = 0; k < ref.p.size(); ++k) if (A.h.pl[k]) ctx.check(A.h.s[i]->isConnected(A.h.pl[k].get()) == (ref.owner[i] == (int)k), fmt("hose: step %ld: socket %zu and plug %zu do not agree whether they are joined", step, i, k));
                }
                for (size_t k = 0; k < ref.s.size() + ref.j.size(); ++k) { const double x = A.links()[base + k]->mFlux, y = B.links()[base + k]->mFlux; ctx.check(std::fabs(x - y) <= 1e-6 * std::max(std::fabs(x), std::fabs(y)) + 1e-9, fmt("hose: step %ld: %s %zu carries %.9g, a plain conductor there %.9g", step, k < ref.s.size() ? "socket" : "hose", k < ref.s.size() ? k : k - ref.s.size(), x, y)); }
                compare(A, B, ctx, step);
                std::string st; for (int w : ref.owner) st += fmt("%d,", w); ctx.state(st);
            }
        }
    }
}
void genHoses(Rng& r, Plan& p, int n, double gLo, double gHi, bool deep) {
    const int ns = r.irange(1, deep ? 6 : 4), nj = r.irange(1, deep ? 5 : 3);
    for (int i = 0; i < ns; ++i) { const int a = r.irange(0, n - 1); p.add("sock", {(double)a, (double)(r.chance(0.3) ? n : (a + 1) % n), r.logRange(gLo, gHi), (double)r.chance(0.5)}); }
    for (int i = 0; i < nj; ++i) p.add("jump", {(double)r.irange(0, n - 1), (double)r.irange(0, n), (double)r.irange(0, ns), (double)r.irange(0, ns), r.logRange(gLo, gHi), (double)r.chance(0.9), (double)r.chance(0.75), (double)r.chance(0.5), (double)r.chance(0.5)});
    const int evs = r.irange(4, deep ? 40 : 18); const bool directMode = r.chance(0.4);
    for (int i = 0; i < evs; ++i) {
        const double k = r.irange(0, 2 * nj - 1), s = r.irange(0, ns - 1 + r.chance(0.1)); const double u = r.u();
        if (directMode && u < 0.5) p.add("direct", {k, r.chance(0.2) ? (double)ns : r.chance(0.15) ? -1.0 : s});
        else if (u < 0.4) { p.add("dis", {k, s}); if (r.chance(0.6)) p.add("con", {k, (double)r.irange(0, ns - 1)}); }
        else if (u < 0.8) p.add("con", {k, s});
        else if (u < 0.87) p.add("restart");
        else if (u < 0.93) p.add("block", {(double)r.irange(0, 10), (double)r.chance(0.7), r.u()});
        else p.add("disable", {k, (double)r.chance(0.5)});
        if (r.chance(0.6)) p.add("step", {(double)(r.chance(0.7) ? 1 : r.irange(2, 6))});
    }
    p.add("step", {3});
}
void basicGen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(2, deep ? 10 : 6); p.set("nodes", n); p.set("island", r.irange(0, 1) * 2); p.set("dt", r.logRange(0.01, 1));
    for (int i = 0; i < n; ++i) p.add("link", {r.chance(0.6) ? 1.0 : 0.0, (double)i, (double)n, r.logRange(0.1, 10), r.range(-10, 10)});
    const int m = r.irange(0, n); for (int i = 0; i < m; ++i) p.add("link", {(double)r.pick(std::vector<int>{0, 2, 3}), (double)r.irange(0, n - 1), (double)r.irange(0, n), r.logRange(0.1, 3), r.range(-5, 5)});
    genHoses(r, p, n, 0.05, 20, deep);
}
void fluidGen2(Rng& r, Plan& p, bool deep) {
    FluidGen g; g.kindsMask = 1 << FluidNet::COND; g.zeroVol = false; g.expansion = 0; g.liquidOk = true; genFluid(r, p, g, deep);
    int n = 0; for (auto& o : p.ops) n += o.kind == "node";
    genHoses(r, p, n, 1e-7, 1e-3, deep);
}
Register s08({"S08", "distinct = a different network, set of hoses and sockets, or order of requests; trivial = no plug is ever asked to move", "which plug is in which socket", {
    Scenario{"cables", 1, basicGen, [](const Plan& p, Ctx& c) { run<BasicSide, BasicKind>(p, c); }},
    Scenario{"hoses", 1, fluidGen2, [](const Plan& p, Ctx& c) { run<FluidSide, FluidKind>(p, c); }}}, 60000, 3000000,
    {"GunnsBasicJumper, GunnsBasicJumperPlug, GunnsBasicSocket, GunnsFluidJumper, GunnsFluidJumperPlug, GunnsFluidSocket", "Gunns solver, conductors, capacitors, nodes"}, {"health & status manager replaced by a recorder", "the network manager's plug status fields are plain variables"},
    {"A plug is commanded either by direct connection or by separate requests, not by both at once", "Sockets stay where they were built", "Leak malfunctions are left out"}});
} // namespace
} // namespace dst
