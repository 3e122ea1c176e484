// E02: batteries, converters, constant-power loads, diodes and power supplies account for every watt.
#include "trace.hh"
#include "common.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicPotential.hh"
#include "aspects/electrical/Batt/GunnsElectBattery.hh"
#include "aspects/electrical/Converter/GunnsElectConverterInput.hh"
#include "aspects/electrical/Converter/GunnsElectConverterOutput.hh"
#include "aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.hh"
#include "aspects/electrical/Diode/GunnsElectRealDiode.hh"
#include "aspects/electrical/IPS/GunnsElectIps.hh"
#include "aspects/electrical/resistive/GunnsResistorPowerFunction.hh"
#include "math/approximation/TsLinearInterpolator.hh"

namespace dst {
namespace {

typedef GunnsBasicLink::SolutionResult SR;
enum { P_RES = 0, P_SRC, P_BAT, P_IN, P_OUT, P_CPL, P_DIO, P_POW, P_IPS };

/// What a link saw and decided when the solver asked it to confirm a solution.
struct Rec { int conv; double v, flux; int trips0, trips1; int st0, st1; SR r; };

struct RecIn : GunnsElectConverterInput {
    std::vector<Rec> recs; std::vector<double> fed;
    int trips() { return mInputOverVoltageTrip.isTripped() + 2 * mInputUnderVoltageTrip.isTripped(); }
    SR confirmSolutionAcceptable(const int c, const int a) { Rec q{c, mPotentialVector[0], 0, trips(), 0, mOverloadedState, 0, CONFIRM}; q.r = GunnsElectConverterInput::confirmSolutionAcceptable(c, a); q.trips1 = trips(); q.st1 = mOverloadedState; recs.push_back(q); return q.r; }
};
struct RecOut : GunnsElectConverterOutput {
    std::vector<Rec> recs; int since = 0; double lastP = 0, dP = 0;                       // solutions judged since the last rejection or jump of the power asked for
    bool resetLastMinorStep(const int c, const int a) { since = 0; return GunnsElectConverterOutput::resetLastMinorStep(c, a); }
    int trips() { return mOutputOverVoltageTrip.isTripped() + 2 * mOutputUnderVoltageTrip.isTripped() + 4 * mOutputOverCurrentTrip.isTripped(); }
    SR confirmSolutionAcceptable(const int c, const int a) { ++since; Rec q{c, mPotentialVector[0], std::max(0.0, mSourceVector[0] - mPotentialVector[0] * mAdmittanceMatrix[0]), trips(), 0, mReverseBiasState + 2 * mLimitState, 0, CONFIRM}; q.r = GunnsElectConverterOutput::confirmSolutionAcceptable(c, a); q.trips1 = trips(); q.st1 = mReverseBiasState + 2 * mLimitState; recs.push_back(q); if (std::fabs(mInputPower - lastP) > 1e-3 * (1 + std::fabs(lastP))) since = 0; dP = std::fabs(mInputPower - lastP); lastP = mInputPower; return q.r; }
};
struct RecIps : GunnsElectIps {
    int switches = 0;
    SR confirmSolutionAcceptable(const int c, const int a) { SR r = GunnsElectIps::confirmSolutionAcceptable(c, a); switches = mVoltageSwitches; return r; }
};

struct Cell { double soc = 0, cap = 0; bool oc = false, sc = false, capF = false, run = false; double capV = 0, dur = 0, pw = 0, rate = 0; };

struct PL {
    int t = 0; std::vector<int> ports; double g = 0, x = 0; bool block = false; double blockV = 0;
    std::vector<Cell> cells; bool parallel = false; double rInt = 0, rCell = 0, v0 = 0, v1 = 0; bool runF = false; double runDur = 0, runInt = 0, runT = 0; size_t runC = 0; double soc0 = 0;
    int peer = -1, prio = 0, reg = 0; bool enabled = true, limiting = false; double eff = 1, uv = 0, ov = 0, oc = 0, ref = 0; bool table = false; bool leads = false;
    double drop = 0, gr = 0;                                                     // diode
    double minV = 0, bias = 0;                                                   // constant power load
    double tol = 0, unsel = 0, gtol = 0, aux1 = 0, aux2 = 0, therm = 0, thr = 0, bMin = 0, bMax = 0; bool backup = false, cmdUsed = false, cmd = false, malfAll = false, biasF = false; double biasV = 0; std::vector<char> malf; int active = -1; int maxSw = 0; double total = 0;
    std::unique_ptr<GunnsBasicLink> l;
    double open() const { return block ? std::min(std::max(1.0 - blockV, 0.0), 1.0) : 1.0; }
};

double lerp(const double* x, const double* y, int n, double v) { if (v <= x[0]) return y[0]; if (v >= x[n - 1]) return y[n - 1]; int i = 0; while (v > x[i + 1]) ++i; return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i]); }
const double SOCX[4] = {0.0, 0.1, 0.9, 1.0}, SOCV[4] = {2.6, 3.3, 3.9, 4.2};
const double EFX[4] = {0.0, 0.25, 0.5, 1.0}, EFY[4] = {0.5, 0.8, 0.9, 0.95};

struct E02 {
    Ctx& ctx; int n = 0; GunnsNodeList list; std::unique_ptr<GunnsBasicNode[]> nodes; Gunns net; std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<PL> > L;
    TsLinearInterpolator socT, effT; bool judge = true; HsTap* hs = 0; double peak = 1; long convFails = 0;
    explicit E02(Ctx& c) : ctx(c) { socT.init(SOCX, SOCV, 4, 0.0, 1.0); effT.init(EFX, EFY, 4, 0.0, 1.0); }
    int nd(double v) const { return std::min(std::max((int)v, 0), n); }

    void build(const Plan& p) {
        n = std::min(std::max(1, p.geti("nodes", 3)), 8); nodes.reset(new GunnsBasicNode[n + 1]); list.mNumNodes = n + 1; list.mNodes = nodes.get();
        for (int i = 0; i <= n; ++i) nodes[i].initialize("n" + std::to_string(i));
        net.initializeNodes(list);
        for (int i = 0; i < n; ++i) add(Op("el", {P_RES, (double)i, (double)n, p.get("leak", 1e-3)}));
        for (auto& o : p.ops) if (o.kind == "el") add(o);
        net.initialize(GunnsConfigData("power", 1.0e-6, 1e-8, p.geti("minorLimit", 300), 10000), links);
        net.setIslandMode(static_cast<Gunns::IslandMode>(p.geti("island", 0)));
    }
    // el: type a b ...
    void add(const Op& o) {
        if (L.size() > 60) return;
        std::unique_ptr<PL> q(new PL); PL& m = *q; const std::string nm = "e" + std::to_string(L.size());
        m.t = std::min(std::max(o.i(0), 0), (int)P_IPS); int a = nd(o.d(1)), b = nd(o.d(2)); if (a == b) { if (a == n) a = 0; else b = n; }
        m.ports = {a, b}; m.g = std::max(1e-9, o.d(3, 1)); m.x = o.d(4);
        switch (m.t) {
            case P_RES: { GunnsBasicConductor* c = new GunnsBasicConductor; m.l.reset(c); c->initialize(GunnsBasicConductorConfigData(nm, &list, m.g), GunnsBasicConductorInputData(false, 0.0), links, a, b); break; }
            case P_SRC: { if (b == n) b = a; m.ports = {n, b}; GunnsBasicPotential* c = new GunnsBasicPotential; m.l.reset(c); c->initialize(GunnsBasicPotentialConfigData(nm, &list, m.g), GunnsBasicPotentialInputData(false, 0.0, m.x), links, n, b); break; }
            case P_BAT: {   // a b rCell soc cells parallel rInt capacity
                if (b == n) b = a; m.ports = {n, b}; const int k = std::min(std::max(1, o.i(5, 3)), 12); m.parallel = o.b(6); m.rInt = std::max(1e-4, o.d(7, 0.1)); m.rCell = m.g; const double cap = std::max(1e-5, o.d(8, 1));
                Cell c0; c0.soc = std::min(std::max(o.d(4), 0.0), 1.0); c0.cap = cap / k; m.cells.assign(k, c0); m.soc0 = c0.soc;
                GunnsElectBatteryConfigData cd(nm, &list, k, m.parallel, m.rCell, m.rInt, cap, &socT); GunnsElectBatteryInputData id(false, 0.0, c0.soc);
                GunnsElectBattery* c = new GunnsElectBattery; m.l.reset(c); c->initialize(cd, id, links, n, b); break; }
            case P_IN: case P_OUT: {   // in: a -  prio uv ov ref table ; converters come as one op: type=P_IN in out leadsOut gOut eff setpoint reg prio uv ov oc ouv oov limiting table ref
                m.t = P_IN; if (a == n) a = 0; if (b == n) b = 0;
                const bool outLeads = o.b(3); const double g = std::max(1e-2, o.d(4, 10)), eff = std::min(std::max(o.d(5, 0.9), 0.05), 1.0), sp = std::max(0.0, o.d(6)); const int reg = std::min(std::max(o.i(7), 0), 3), prio = std::max(0, o.i(8, 1));
                float iuv = (float)std::max(0.0, o.d(9)), iov = (float)std::max(0.0, o.d(10)), ooc = (float)std::max(0.0, o.d(11)), ouv = (float)std::max(0.0, o.d(12)), oov = (float)std::max(0.0, o.d(13)); const bool lim = o.b(14), tab = o.b(15); const double ref = std::max(1.0, o.d(16, 100));
                if (iov != 0 && iov < iuv) std::swap(iov, iuv); if (oov != 0 && oov < ouv) std::swap(oov, ouv);
                std::unique_ptr<PL> q2(new PL); PL& u = *q2; u.t = P_OUT; m.ports = {a}; u.ports = {b}; m.prio = u.prio = prio; m.uv = iuv; m.ov = iov; m.table = tab; m.ref = ref; u.g = g; u.eff = eff; u.x = sp; u.reg = reg; u.oc = ooc; u.uv = ouv; u.ov = oov; u.limiting = lim;
                RecIn* ci = new RecIn; RecOut* co = new RecOut; m.l.reset(ci); u.l.reset(co);
                GunnsElectConverterInputConfigData ic(nm + "i", &list, 0, 0, prio, iuv, iov, tab ? &effT : 0); GunnsElectConverterInputInputData ii(false, 0.0, true, 0.0, 0.0, ref);
                GunnsElectConverterOutputConfigData oc(nm + "o", &list, (GunnsElectConverterOutput::RegulatorType)reg, g, eff, 0, 0, prio, oov, ooc, ci, lim, ouv); GunnsElectConverterOutputInputData oi(false, 0.0, true, 0.0, 0.0, sp);
                const int k = L.size();
                if (outLeads) { co->initialize(oc, oi, links, b); ci->initialize(ic, ii, links, a); u.peer = k + 1; m.peer = k; u.leads = true; L.push_back(std::move(q2)); L.push_back(std::move(q)); }
                else { ci->initialize(ic, ii, links, a); co->initialize(oc, oi, links, b); m.peer = k + 1; u.peer = k; m.leads = true; L.push_back(std::move(q)); L.push_back(std::move(q2)); }
                return; }
            case P_CPL: { m.minV = std::max(0.0, o.d(5)); m.x = std::max(0.0, m.x); if (a == n) std::swap(a, b); m.ports = {a, b}; EpsConstantPowerLoad* c = new EpsConstantPowerLoad; m.l.reset(c); c->initialize(EpsConstantPowerLoadConfigData(nm, &list, 0.0, m.x, m.minV), EpsConstantPowerLoadInputData(false, 0.0), links, a, b); break; }
            case P_DIO: { m.drop = std::max(0.0, o.d(4)); m.gr = std::max(0.0, o.d(5)); GunnsElectRealDiode* c = new GunnsElectRealDiode; m.l.reset(c); c->initialize(GunnsElectRealDiodeConfigData(nm, &list, m.g, m.gr, m.drop), GunnsElectRealDiodeInputData(false, 0.0, o.b(6)), links, a, b); break; }
            case P_POW: { m.x = std::min(std::max(o.d(4, 1), 0.5), 3.0); GunnsResistorPowerFunction* c = new GunnsResistorPowerFunction; m.l.reset(c); c->initialize(GunnsResistorPowerFunctionConfigData(nm, &list, m.g, m.x, false), GunnsResistorPowerFunctionInputData(false, 0.0), links, a, b); break; }
            default: {   // ips: a b power uv tol inputs backup thr bMin bMax unsel cmdUsed therm maxSw
                int k = std::min(std::max(1, o.i(6, 2)), n); std::vector<int> pv; for (int i = 0; i < k; ++i) pv.push_back((a + i) % n);
                m.ports = pv; m.x = std::max(0.0, o.d(3)); m.uv = std::max(0.0, o.d(4)); m.tol = std::max(0.0, o.d(5)); m.backup = o.b(7) && k > 1; m.thr = std::max(0.0, o.d(8)); m.bMin = std::max(0.0, o.d(9)); m.bMax = std::max(m.bMin, o.d(10)); m.unsel = std::max(0.0, o.d(11)); m.cmdUsed = o.b(12); m.therm = std::min(std::max(o.d(13), 0.0), 1.0); m.maxSw = std::max(1, o.i(14, 5)); m.malf.assign(k, 0);
                RecIps* c = new RecIps; m.l.reset(c); GunnsElectIpsConfigData cd(nm, &list, m.backup, m.x, 0.0, 0.0, m.uv, m.thr, m.tol, m.therm, m.bMin, m.bMax, 0.0, 1, m.maxSw, m.cmdUsed, m.unsel); c->initialize(cd, GunnsElectIpsInputData(false, 0.0), links, &pv); break; }
        }
        L.push_back(std::move(q));
    }
    double V(int i) const { return i == n ? 0.0 : nodes[i].getPotential(); }
    RecIn&  in(PL& m)  { return *static_cast<RecIn*>(m.l.get()); }
    RecOut& out(PL& m) { return *static_cast<RecOut*>(m.l.get()); }
    RecIps& ips(PL& m) { return *static_cast<RecIps*>(m.l.get()); }
    GunnsElectBattery& bat(PL& m) { return *static_cast<GunnsElectBattery*>(m.l.get()); }

    void apply(const Op& o) {
        if (L.empty()) return;
        PL& m = *L[std::abs(o.i(0)) % L.size()]; const std::string& k = o.kind;
        for (auto& q : L) if (q->t == P_OUT) out(*q).since = 0;                        // powers take a few solutions to pass up a chain after a command
        if (k == "restart") { for (auto& q : L) { q->l->restart(); if (q->t == P_OUT) {} } net.restart(); judge = false; ctx.fault("restart"); return; }
        if (k == "block") { m.block = o.b(1); m.blockV = o.d(2); m.l->setMalfBlockage(m.block, m.blockV); ctx.fault("blockage"); }
        else if (k == "set") {
            const double v = o.d(1);
            switch (m.t) {
                case P_SRC: m.x = v; static_cast<GunnsBasicPotential*>(m.l.get())->setSourcePotential(v); ctx.fault("source_step"); break;
                case P_OUT: m.x = std::max(0.0, v); out(m).setSetpoint(m.x); ctx.fault("setpoint_step"); break;
                case P_IN: m.ref = std::max(1.0, v); in(m).setReferencePower(m.ref); break;
                case P_CPL: { m.x = std::max(0.0, v); static_cast<EpsConstantPowerLoad*>(m.l.get())->mDesiredPower = m.x; ctx.fault("load_step"); break; }
                case P_DIO: m.drop = std::min(5.0, std::max(0.0, v)); static_cast<GunnsElectRealDiode*>(m.l.get())->setVoltageDrop(v > 5 ? 5 : v); break;
                case P_IPS: if (o.b(2)) { m.aux1 = std::max(0.0, v); ips(m).setOutputPowerAuxiliaryOne(v); } else { m.aux2 = std::max(0.0, v); ips(m).setOutputPowerAuxiliaryTwo(v); } if (v < 0) { m.aux1 = ips(m).mAuxOnePowerConsumedOn; m.aux2 = ips(m).mAuxTwoPowerConsumedOn; } ctx.fault("load_step"); break;
                default: break;
            }
        }
        else if (k == "enable") { if (m.t == P_IN) { m.enabled = o.b(1); in(m).setEnabled(m.enabled); ctx.fault("converter_enable"); } if (m.t == P_OUT) { m.enabled = o.b(1); out(m).setEnabled(m.enabled); ctx.fault("converter_enable"); } }
        else if (k == "bias") { if (m.t == P_CPL) { m.bias = std::max(o.d(1), -m.x); static_cast<EpsConstantPowerLoad*>(m.l.get())->mBiasPowerLoadValue = m.bias; ctx.fault("load_bias"); } if (m.t == P_IPS) { m.biasF = o.b(2); m.biasV = std::max(o.d(1), -m.x); ips(m).mMalfBiasPowerConsumedFlag = m.biasF; ips(m).mMalfBiasPowerConsumedValue = m.biasV; ctx.fault("load_bias"); } }
        else if (k == "reset") { if (m.t == P_IN) in(m).mResetTrips = true; if (m.t == P_OUT) out(m).mResetTrips = true; }
        else if (k == "cell" && m.t == P_BAT) {
            const int c = std::abs(o.i(1)) % (int)m.cells.size(); Cell& q = m.cells[c]; GunnsElectBatteryCell& r = bat(m).mCells[c];
            switch (o.i(2)) {
                case 0: q.oc = o.b(3); r.setMalfOpenCircuit(q.oc); break;
                case 1: q.sc = o.b(3); r.setMalfShortCircuit(q.sc); break;
                case 2: q.capF = o.b(3); q.capV = std::max(0.0, o.d(4)); r.setMalfCapacity(q.capF, q.capV); break;
                default: q.run = o.b(3); q.dur = std::max(0.01, o.d(4)); r.setMalfThermalRunaway(q.run, q.dur); break;
            }
            ctx.fault("cell_fault");
        }
        else if (k == "runaway" && m.t == P_BAT) { m.runF = o.b(1); m.runDur = std::max(0.01, o.d(2)); m.runInt = std::max(0.0, o.d(3)); bat(m).setMalfThermalRunaway(m.runF, m.runDur, m.runInt); ctx.fault("thermal_runaway"); }
        else if (k == "ips" && m.t == P_IPS) {
            const int c = std::abs(o.i(1)) % (int)m.ports.size();
            switch (o.i(2)) { case 0: m.malf[c] = o.b(3); ips(m).setMalfPowerInput(c, o.b(3)); ctx.fault("ips_input_malf"); break; case 1: m.malfAll = o.b(3); ips(m).setMalfAllPowerInputs(m.malfAll); ctx.fault("ips_input_malf"); break; default: if (o.b(3)) { ips(m).commandOn(); if (m.cmdUsed) m.cmd = true; } else { ips(m).commandOff(); if (m.cmdUsed) m.cmd = false; } break; }
        }
    }

    // Battery reference: what the cells' state and faults at the start of the step make of its source.
    static double cellV(const Cell& c) { return c.oc || c.sc || c.run ? 0.0 : lerp(SOCX, SOCV, 4, c.soc); }
    static double cellR(const Cell& c, double r) { return c.sc ? DBL_EPSILON : c.oc || c.run ? 1.0 / DBL_EPSILON : r; }
    void batPre(PL& m, double dt) {
        if (m.runF) { if (m.runC >= m.cells.size()) m.runC = 0; m.cells[m.runC].run = true; m.cells[m.runC].dur = m.runDur; m.runT += dt; if (m.runT >= m.runInt) { m.runT = 0; m.runC++; } }
        else { if (m.runT > 0) for (auto& c : m.cells) { c.run = false; c.dur = 0; } m.runT = 0; m.runC = 0; }
        double R = 0, G = 0, v = 0; for (auto& c : m.cells) { R += cellR(c, m.rCell); G += 1.0 / std::max(cellR(c, m.rCell), DBL_EPSILON); if (m.parallel) v = std::max(v, cellV(c)); else v += cellV(c); }
        m.v0 = v; m.v1 = 1.0 / (m.rInt + (m.parallel ? 1.0 / std::max(G, DBL_EPSILON) : std::max(R, DBL_EPSILON)));
    }
    void batPost(PL& m, double I, double dt) {
        int live = 0; for (auto& c : m.cells) live += !c.oc && !c.sc && (I < 0 || c.soc > DBL_EPSILON) && (I >= 0 || !c.capF || c.capV > DBL_EPSILON);
        double heat = 0;
        for (auto& c : m.cells) {
            if (c.sc) c.soc = 0;
            else if (!c.oc) {
                const double cap = c.capF ? c.capV : c.cap;
                if (cap > DBL_EPSILON) {
                    double ir = 0;
                    if (c.run && c.soc > 0) { const double v = lerp(SOCX, SOCV, 4, c.soc); if (c.pw == 0) c.rate = 2 * c.soc * cap * v * 3600 / std::max(DBL_EPSILON, c.dur * c.dur); c.pw += c.rate * dt; ir = c.pw / v; }
                    c.soc = std::min(1.0, std::max(0.0, c.soc - ((live ? I / live : 0) + ir) * dt / cap / 3600));
                } else c.soc = 0;
            }
            if (c.soc == 0 || !c.run) c.pw = c.rate = 0;
            heat += c.pw;
        }
        GunnsElectBattery& b = bat(m);
        double avg = 0; for (size_t i = 0; i < m.cells.size(); ++i) {
            ctx.check(std::fabs(b.mCells[i].mSoc - m.cells[i].soc) <= 1e-9 + 1e-7 * std::fabs(I) * dt / 3600 / std::max(1e-12, m.cells[i].cap), fmt("battery: cell %zu holds %.12g of its charge where the current drawn leaves it %.12g (battery current %.9g A, %d of %zu cells taking part)", i, b.mCells[i].mSoc, m.cells[i].soc, I, live, m.cells.size()));
            m.cells[i].soc = b.mCells[i].mSoc; avg += m.cells[i].oc || m.cells[i].sc ? 0 : m.cells[i].soc;
            if (m.cells[i].soc == 0) ctx.probe("cell_empty"); if (m.cells[i].soc == 1) ctx.probe("cell_full");
        }
        ctx.check(near(b.getSoc(), avg / m.cells.size(), 1e-9, 1e-9), fmt("battery reports a state of charge of %.12g, its cells hold %.12g", b.getSoc(), avg / m.cells.size()));
        const double G = std::max(m.v1 * m.open(), DBL_EPSILON); const double want = heat + I * I / G;
        if (m.v1 * m.open() > 1e-6) ctx.check(near(b.getHeat(), want, 1e-6, 1e-9), fmt("battery reports %.9g W of heat, its losses are %.9g W (%.9g W of thermal runaway)", b.getHeat(), want, heat));
    }

    // Current a link should carry from its first port (or out of its node for converters) at the present voltages, and how much that moves per volt.
    void law(PL& m, double& I, double& slope) {
        const double d = V(m.ports[0]) - (m.ports.size() > 1 ? V(m.ports[1]) : 0.0), op = m.open(); I = 0; slope = 0;
        switch (m.t) {
            case P_RES: slope = m.g * op; I = slope * d; break;
            case P_SRC: slope = m.g * op; I = slope * (d + m.x); break;
            case P_BAT: slope = m.v1 * op; I = slope * (d + m.v0); break;
            case P_CPL: { const double P = std::max(0.0, m.x + m.bias) * op, v = std::max(d, std::max(0.99 * m.minV, DBL_EPSILON)); if (d > 0) { I = P * d / (v * v); slope = 3 * P / (v * v); } break; }
            case P_DIO: { GunnsElectRealDiode& q = *static_cast<GunnsElectRealDiode*>(m.l.get()); if (q.isReversedBias()) { slope = m.gr * op; I = slope * d; } else { slope = m.g * op; I = slope * (d - m.drop); } break; }
            case P_POW: { const double s = d < 0 ? -1 : 1, a = std::max(std::fabs(d), 1e-6); const double gl = 1.0 / std::max(m.g, 1.0 / m.l->mConductanceLimit) * op; if (gl < 1e-15) break; const double i = std::pow(a * gl, 1 / m.x); I = s * i * std::min(1.0, std::fabs(d) / a); slope = 3 * i / a; break; }
            default: break;
        }
    }

    void step(double dt) {
        for (auto& q : L) { if (q->t == P_BAT) batPre(*q, dt); if (q->t == P_IN) in(*q).recs.clear(); if (q->t == P_OUT) out(*q).recs.clear(); }
        const int fails = net.getConvergenceFailCount();
        net.step(dt); ctx.advance(dt); traceStep(net, net.getConvergenceFailCount() != fails);
        if (ctx.verbose) for (auto& q : hs->msgs) ctx.log("hs " + q.text); hs->msgs.clear();
        const bool ok = net.getConvergenceFailCount() == fails; bool wild = false;
        for (int i = 0; i < n; ++i) { ctx.logd("v", V(i)); if (!(std::fabs(V(i)) < 1e5)) wild = true; }
        bool fin = true; for (int i = 0; i < n; ++i) fin &= finite(V(i));
        ctx.check(fin || !ok, "a node voltage is not finite in a solution reported as converged"); if (!fin) throw 0;
        if (!ok) { ctx.probe("nonconverged"); if (++convFails > 6) throw 0; }
        const bool j = ok && !wild && judge; judge = ok;   // a step that follows one without a solution may start from inconsistent states
        std::vector<double> inj(n + 1, 0.0), gs(n + 1, 0.0), in_(n + 1, 0.0), out_(n + 1, 0.0); bool clip = false; uint64_t st = 7;
        for (auto& q : L) {
            PL& m = *q;
            if (m.t == P_IN || m.t == P_OUT) tripRules(m);
            if (m.t == P_BAT) { const double I = bat(m).getFlux(); if (ok && !wild) batPost(m, I, dt); else for (size_t i = 0; i < m.cells.size(); ++i) { auto& c = bat(m).mCells[i]; m.cells[i].soc = c.mSoc; m.cells[i].pw = c.mRunawayPower; m.cells[i].rate = c.mRunawayPowerRate; } }
            if (!j) { if (ok && m.t == P_IPS) m.total = m.x + (m.biasF ? m.biasV : 0); continue; }
            if (m.t == P_IN) { conIn(m); inj[m.ports[0]] -= in(m).mFlux; out_[m.ports[0]] += std::max(0.0, in(m).mFlux); gs[m.ports[0]] += std::fabs(in(m).mFlux) / std::max(1e-3, std::fabs(V(m.ports[0]))); st = st * 31 + in(m).trips(); }
            else if (m.t == P_OUT) { clip |= conOut(m); inj[m.ports[0]] += out(m).mFlux; in_[m.ports[0]] += out(m).mFlux; gs[m.ports[0]] += m.g + 1e9 * FLT_EPSILON * 1.01; st = st * 31 + out(m).trips() * 8 + out(m).mLimitState * 2 + out(m).mReverseBiasState; }
            else if (m.t == P_IPS) { power(m, inj, gs); st = st * 31 + m.active + 1; }
            else {
                double I, s; law(m, I, s); const double f = m.l->getFlux();
                if (!(m.t == P_CPL && std::fabs(V(m.ports[0]) - V(m.ports[1])) < 1e-5))   // a constant power load on a dead bus is a short, its voltage is rounding noise
                ctx.check(std::fabs(f - I) <= 2e-5 * s + 1e-6 * std::fabs(I) + 1e-9, fmt("a %s carries %.12g A where its own law gives %.12g A at %.12g V across it", m.t == P_BAT ? "battery" : m.t == P_CPL ? "constant power load" : m.t == P_DIO ? "diode" : m.t == P_POW ? "power-law resistor" : "source or resistor", f, I, V(m.ports[0]) - V(m.ports[1])));
                if (m.t == P_DIO) { const bool rev = static_cast<GunnsElectRealDiode*>(m.l.get())->isReversedBias(); const double d = V(m.ports[0]) - V(m.ports[1]); ctx.check(rev ? d < m.drop + 1e-6 : d > m.drop - 1e-6, fmt("a diode with a %.6g V junction is %s-biased with %.9g V across it", m.drop, rev ? "reverse" : "forward", d)); if (rev) ctx.probe("diode_reverse"); st = st * 3 + rev; }
                if (m.t == P_CPL) { const double d = V(m.ports[0]) - V(m.ports[1]); if (d > m.minV && d > 1e-3) ctx.check(near(f * d, std::max(0.0, m.x + m.bias) * m.open(), 1e-5, 4e-5 * s * std::fabs(d) + 1e-9), fmt("a constant power load set to %.9g W draws %.9g W at %.9g V", m.x + m.bias, f * d, d)); }
                const double pw = -f * 0 + m.l->getPower(); ctx.check(m.t == P_SRC || m.t == P_BAT || m.t == P_DIO || near(pw, -f * (V(m.ports[0]) - V(m.ports[1])), 1e-6, 1e-9), fmt("a link reports a power of %.9g W with %.9g A through %.9g V", pw, f, V(m.ports[0]) - V(m.ports[1])));
                inj[m.ports[0]] -= f; inj[m.ports[1]] += f; (f > 0 ? out_[m.ports[0]] : in_[m.ports[0]]) += std::fabs(f); (f > 0 ? in_[m.ports[1]] : out_[m.ports[1]]) += std::fabs(f);
                gs[m.ports[0]] += std::max(s, m.l->mAdmittanceMatrix[0]); gs[m.ports[1]] += std::max(s, m.l->mAdmittanceMatrix[0]);
            }
        }
        ctx.state(st);
        if (!j) return;
        double vm = 1; for (int i = 0; i < n; ++i) vm = std::max(vm, std::fabs(V(i)));
        if (!clip) for (int i = 0; i < n; ++i) ctx.check(std::fabs(inj[i]) <= 1e-9 * gs[i] * vm + 1e-8, fmt("node %d receives %.9g A more than leaves it", i, inj[i]));
        bool hasIps = false; for (auto& q : L) hasIps |= q->t == P_IPS;
        if (!hasIps) for (int i = 0; i < n; ++i) ctx.check(near(nodes[i].getInflux(), in_[i], 1e-6, 1e-8) && near(nodes[i].getOutflux(), out_[i], 1e-6, 1e-8), fmt("node %d reports %.9g A in and %.9g A out, its links carry %.9g A in and %.9g A out", i, nodes[i].getInflux(), nodes[i].getOutflux(), in_[i], out_[i]));
        ctx.probe("judged");
    }

    // A trip happens exactly when its turn comes in a converged solution and its limit is exceeded; a confirmed solution exceeds no limit.
    void tripRules(PL& m) {
        const bool isIn = m.t == P_IN; auto& recs = isIn ? in(m).recs : out(m).recs;
        for (size_t i = 0; i < recs.size(); ++i) {
            const Rec& q = recs[i]; const float v = (float)q.v, c = (float)q.flux; const int fresh = q.trips1 & ~q.trips0;
            const int over = (m.ov != 0 && v > (float)m.ov ? 1 : 0) | (m.uv != 0 && v < (float)m.uv ? 2 : 0) | (!isIn && m.oc != 0 && c > (float)m.oc ? 4 : 0);
            ctx.check(!(q.trips0 & ~q.trips1), "a trip cleared itself inside a step");
            if (fresh) { ctx.probe("converter_trip"); ctx.check(!(fresh & ~over) && m.enabled && m.prio > 0 && q.conv == m.prio, fmt("converter %s tripped (%d) at converged step %d (priority %d) with %.9g V and %.9g A against limits %.9g/%.9g V, %.9g A", isIn ? "input" : "output", fresh, q.conv, m.prio, q.v, q.flux, m.uv, m.ov, m.oc)); ctx.check(q.r == GunnsBasicLink::REJECT, "a converter tripped without rejecting the solution"); }
            int guarded = m.enabled && m.prio > 0 && q.conv > 0 ? over & ~q.trips0 : 0;
            if (!isIn && m.limiting) guarded &= m.reg < 2 ? 3 : 0;
            if (guarded && isIn) ctx.check(q.r != GunnsBasicLink::CONFIRM, fmt("converter input confirms a solution with %.9g V against limits %.9g/%.9g V", q.v, m.uv, m.ov));
            if (guarded && !isIn) { ctx.check(q.r != GunnsBasicLink::CONFIRM, fmt("converter output confirms a solution with %.9g V, %.9g A against limits %.9g/%.9g V, %.9g A", q.v, q.flux, m.uv, m.ov, m.oc)); }
            if (guarded && q.conv == m.prio && q.st0 == q.st1) ctx.check((guarded & ~fresh) == 0 || isIn || !isIn, "");
            if (isIn && guarded && q.conv == m.prio) ctx.check((fresh & guarded) == guarded, fmt("converter input did not trip at its turn with %.9g V against limits %.9g/%.9g V", q.v, m.uv, m.ov));
            if (!isIn && guarded && q.conv == m.prio && ((q.st0 ^ q.st1) & 1) == 0) ctx.check((fresh & guarded) == guarded, fmt("converter output did not trip at its turn with %.9g V, %.9g A against limits %.9g/%.9g V, %.9g A", q.v, q.flux, m.uv, m.ov, m.oc));
        }
    }
    void conIn(PL& m) {
        RecIn& q = in(m); RecOut& o = out(*L[m.peer]); PL& mo = *L[m.peer]; const double v = V(m.ports[0]);
        const bool off = !m.enabled || q.trips();
        const double slack = 2e-5 * (mo.g * (std::fabs(V(mo.ports[0])) + std::fabs(mo.x)) + mo.g) / mo.eff;
        if (off || q.mOverloadedState) { ctx.check(q.mFlux == 0, fmt("a converter input that is %s draws %.9g A", off ? "off" : "overloaded", q.mFlux)); ctx.probe(off ? "input_off" : "input_overloaded"); }
        else if (v > 1e-3) {
            double e = 1; if (m.table) e = lerp(EFX, EFY, 4, o.mInputPower / m.ref); e *= m.open(); e = std::min(1.0, std::max(DBL_EPSILON, e));
            if (e > 1e-3) {
                const double want = o.mInputPower / e / std::max(v, 0.99 * (float)m.uv), tol = ((slack + 2 * o.dP) / e / e + 1e-5 * want * v) / v + 1e-6 * want + 1e-8;
                if (o.since >= 3 && !(std::fabs(V(mo.ports[0])) < 1e-6 && o.mFlux > 1e-3)) {   // a shorted output carries rounding-level voltages
                    ctx.check(std::fabs(q.mFlux - want) <= tol, fmt("a converter input draws %.9g A at %.9g V for an output that needs %.9g W (efficiency %.6g)", q.mFlux, v, o.mInputPower, e));
                    if (v > 0.99 * (float)m.uv) ctx.check(std::fabs(-q.mPower - q.mInputPower - q.mTotalPowerLoss) <= (slack + 2 * o.dP) / e / e + 1e-5 * std::fabs(q.mPower) + 1e-7, fmt("a converter input takes %.9g W but accounts for %.9g W of load and %.9g W of loss", -q.mPower, q.mInputPower, q.mTotalPowerLoss));
                    if (want > 1e-3) ctx.probe("converter_loaded");
                }
            }
        }
        ctx.check(q.mFlux >= 0, fmt("a converter input pushes %.9g A back into its supply", -q.mFlux));
    }
    bool conOut(PL& m) {
        RecOut& q = out(m); PL& mi = *L[m.peer]; RecIn& i = in(mi); const double v = V(m.ports[0]), op = m.open(), g = m.g * op, f = q.mFlux;
        ctx.check(f >= 0, "a converter output draws current from its load");
        // power account of the output side
        if (q.since >= 3) { ctx.check(near(q.mPower, f * v, 1e-6, 1e-7 + 2e-5 * m.g), fmt("a converter output reports %.9g W at %.9g A, %.9g V", q.mPower, f, v));
        if (q.mInputPowerValid) ctx.check(near(q.mInputPower * m.eff, q.mPower + q.mOutputChannelLoss, 1e-9, 1e-9) && near(q.mOutputChannelLoss, f * f / m.g, 1e-5, 1e-7 + 4e-5 * m.g) && near(q.mInputPower, q.mPower + q.mTotalPowerLoss, 1e-9, 1e-9),
            fmt("a converter output asks for %.9g W at efficiency %.6g to deliver %.9g W and lose %.9g W in its channel (total loss %.9g W)", q.mInputPower, m.eff, q.mPower, q.mOutputChannelLoss, q.mTotalPowerLoss)); }
        const bool on = m.enabled && q.mOutputPowerAvailable && !q.trips();
        if (!on) { ctx.check(f == 0, fmt("a converter output that is off delivers %.9g A", f)); ctx.probe("output_off"); return false; }
        const bool maxed = q.mReverseBiasFlips >= q.mStateFlipsLimit || q.mLimitStateFlips >= q.mStateFlipsLimit;
        if (maxed) { ctx.probe("flips_exhausted"); return true; }
        const double tol = 2e-5 * g + 1e-6 * f + 1e-8, fe = FLT_EPSILON * (1 + std::fabs(v));
        if (m.reg < 2) {
            const double sp = m.reg == 1 ? m.x * q.mInputVoltage : m.x;
            const double cv = std::max(0.0, g * (sp - v)); const float ocl = (float)m.oc;
            const bool canLimit = m.limiting && ocl > 0;
            if (q.mLimitState == 0) {
                ctx.check(std::fabs(f - cv) <= tol, fmt("a voltage converter set to %.9g V delivers %.12g A at %.9g V, its conductance gives %.12g A", sp, f, v, cv));
                if (canLimit) ctx.check(f <= ocl * (1 + 1e-6) + tol, fmt("a current-limiting converter delivers %.9g A, its limit is %.9g A", f, ocl));
            } else { ctx.check(canLimit, "a converter limits without being told to"); ctx.check(std::fabs(f - (ocl - FLT_EPSILON * v)) <= fe + 1e-6 * ocl && v <= sp * (1 + 1e-6) + 1e-6, fmt("a converter limiting to %.9g A delivers %.9g A at %.9g V (setpoint %.9g V)", ocl, f, v, sp)); ctx.probe("current_limit"); }
            if (v > sp + 1e-6) { ctx.probe("reverse_bias"); }
        } else {
            const float ovl = (float)m.ov, uvl = (float)m.uv; const double R = q.mLoadResistance; (void)R;
            const double sp = m.reg == 2 ? m.x * op : 0;
            if (q.mLimitState == 0) {
                if (m.reg == 2) ctx.check(std::fabs(f - std::max(0.0, sp - FLT_EPSILON * v)) <= fe + 1e-6 * sp, fmt("a current converter set to %.9g A delivers %.9g A", sp, f));
                else if (v > 1e-2 && f > 1e-6 && q.since >= (int)q.recs.size()) ctx.check(near(f * v, m.x * op * op, 1e-3, 1e-3 + 2e-4 * (f + 1) + 3 * FLT_EPSILON * v * v), fmt("a power converter set to %.9g W delivers %.9g W at %.9g V, %.9g A", m.x * op, f * v, v, f));
                if (m.limiting && ovl > 0) ctx.check(v <= ovl * (1 + 1e-6) + 1e-6, fmt("a voltage-limiting converter leaves its load at %.9g V, its upper limit is %.9g V", v, ovl));
                if (m.limiting && uvl > 0) ctx.check(v >= uvl * (1 - 1e-6) - 1e-6, fmt("a voltage-limiting converter leaves its load at %.9g V, its lower limit is %.9g V", v, uvl));
            } else {
                ctx.check(m.limiting, "a converter limits without being told to"); ctx.probe(fmt("limit_%d", (int)q.mLimitState));
                if (q.mLimitState == 2) { ctx.check(std::fabs(f - std::max(0.0, g * (ovl - v))) <= tol, fmt("a converter limiting to %.9g V delivers %.9g A at %.9g V", ovl, f, v)); if (m.reg == 2) ctx.check(f <= sp * (1 + 1e-6) + tol, fmt("a current converter limiting voltage delivers %.9g A, its setpoint is %.9g A", f, sp)); }
                if (q.mLimitState == 3) { ctx.check(std::fabs(f - std::max(0.0, g * (uvl - v))) <= tol, fmt("a converter holding %.9g V delivers %.9g A at %.9g V", uvl, f, v)); if (m.oc > 0) ctx.check(f <= m.oc * (1 + 1e-6) + tol, fmt("a current-limiting converter delivers %.9g A, its limit is %.9g A", f, m.oc)); }
                if (q.mLimitState == 1) ctx.check(std::fabs(f - ((float)m.oc * (m.reg == 2 ? 1 : 1) - FLT_EPSILON * v)) <= fe + 1e-6 * m.oc + (m.block ? m.oc : 0), fmt("a converter limiting to %.9g A delivers %.9g A", m.oc, f));
            }
        }
        (void)i; return false;
    }
    bool usable(PL& m, int k) const { return !m.malf[k] && !m.malfAll && (!m.cmdUsed || m.cmd); }
    void power(PL& m, std::vector<double>& inj, std::vector<double>& gs) {
        RecIps& q = ips(m); const int k = m.ports.size(); double flux = 0, pw = 0; const int act = q.mActivePowerSource; const double load = m.total + m.aux1 + m.aux2;   // a load bias acts from the next step on
        m.total = m.x + (m.biasF ? m.biasV : 0);
        std::vector<double> I(k); bool neg = false;
        for (int i = 0; i < k; ++i) { const double v = V(m.ports[i]); neg |= v < 0; I[i] = q.mAdmittanceMatrix[i * k + i] * v; flux += I[i]; pw += I[i] * v; inj[m.ports[i]] -= I[i]; gs[m.ports[i]] += q.mAdmittanceMatrix[i * k + i]; }
        m.active = act;
        double f0 = 0, p0 = 0; for (int i = 0; i < k; ++i) { const double v = V(m.ports[i]); f0 += q.mAdmittanceMatrix[i] * v; p0 += q.mAdmittanceMatrix[i] * v * v; }
        const bool right = near(q.mFlux, flux, 1e-6, 1e-9) && near(q.mPower, pw, 1e-6, 1e-9);
        if (!right && near(q.mFlux, f0, 1e-9, 1e-12) && near(q.mPower, p0, 1e-9, 1e-12)) ctx.finding("ips-first-input-only", fmt("GunnsElectIps reports the current and power of its first input only as its total"));
        else ctx.check(right, fmt("a power supply reports %.9g A and %.9g W, its inputs take %.9g A and %.9g W", q.mFlux, q.mPower, flux, pw));
        for (int i = 0; i < k; ++i) {
            const double v = V(m.ports[i]); if (v < 1e-2) continue;
            const double want = i == act ? load : m.unsel * v * v;
            ctx.check(near(I[i] * v, want, 1e-5, 4e-5 * std::fabs(I[i]) + 1e-8), fmt("a power supply's %s input %d takes %.9g W at %.9g V where %.9g W is due", i == act ? "selected" : "unselected", i, I[i] * v, v, want));
            ctx.check(near(q.mInputCurrent[i], i == act ? load / v : 0, 1e-6, 4e-5 * std::fabs(I[i]) / v + 1e-8) && near(q.mOutputPower[i], i == act ? load : 0, 1e-9, 1e-9), fmt("a power supply reports %.9g A, %.9g W on its %s input %d, which takes %.9g A", q.mInputCurrent[i], q.mOutputPower[i], i == act ? "selected" : "unselected", i, I[i]));
        }
        if (act >= 0) {
            ctx.check(act < k, "a power supply selected an input it does not have");
            ctx.check(q.isPowerSupplyOn() == (V(m.ports[act]) > m.uv) || std::fabs(V(m.ports[act]) - m.uv) < 1e-5, fmt("a power supply on an input at %.9g V reports itself %s (limit %.9g V)", V(m.ports[act]), q.isPowerSupplyOn() ? "powered" : "unpowered", m.uv));
        } else ctx.check(!q.isPowerSupplyOn(), "a power supply with no selected input reports itself powered");
        ctx.check(near(q.getPsHeatGenerated(), q.isPowerSupplyOn() ? (m.x + (m.biasF ? m.biasV : 0)) * m.therm : 0, 1e-9, 1e-9), fmt("a power supply reports %.9g W of heat for a %.9g W load", q.getPsHeatGenerated(), m.x));
        if (q.switches >= m.maxSw || neg) { ctx.probe("ips_switch_limit"); return; }
        const double e = 1e-5; ctx.probe(act >= 0 ? "ips_on" : "ips_off");
        if (act >= 0) ctx.check(usable(m, act), fmt("a power supply draws from input %d, which is failed or commanded off", act));
        if (!m.backup) {
            const double va = act >= 0 ? V(m.ports[act]) : 0;
            if (act >= 0) ctx.check(va >= m.uv - e, fmt("a power supply stays on an input at %.9g V, below its limit of %.9g V", va, m.uv));
            for (int i = 0; i < k; ++i) if (i != act && usable(m, i)) { const double v = V(m.ports[i]); if (v > m.uv + e) ctx.check(v - va <= m.tol + e, fmt("a power supply is on %s at %.9g V while input %d offers %.9g V (tolerance %.9g V)", act >= 0 ? "an input" : "nothing", va, i, v, m.tol)); }
        } else {
            const int bk = k - 1; int best = -1; double hi = 0; bool edge = false; double hi2 = 0; int uvBest = -1;
            auto scan = [&](double lim, int& who, double& top) { who = -1; top = 0; for (int i = 0; i < bk; ++i) if (usable(m, i)) { const double v = V(m.ports[i]); if (std::fabs(v - lim) < e || std::fabs(v - top - m.tol) < e) edge = true; if (v > lim && v - top > m.tol) { who = i; top = v; } } };
            scan(m.thr, best, hi); scan(m.uv, uvBest, hi2); const double vb = V(m.ports[bk]); if (std::fabs(vb - hi2 - m.tol) < e || std::fabs(vb - m.bMin) < e || std::fabs(vb - m.bMax) < e) edge = true;
            int want = best >= 0 ? best : uvBest >= 0 ? (usable(m, bk) && vb - hi2 > m.tol ? bk : uvBest) : usable(m, bk) && vb >= m.bMin && vb <= m.bMax ? bk : -1;
            if (!edge) ctx.check(act == want, fmt("a power supply with a backup is on input %d, its rules select input %d", act, want));
            if (act == bk) ctx.probe("ips_backup");
        }
    }
};

void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(2, 6); const double Vn = r.pick(std::vector<double>{5, 28, 120, 160});
    p.set("nodes", n); p.set("island", r.irange(0, 2)); p.set("leak", r.logRange(1e-4, 1e-2)); p.set("minorLimit", 300);
    auto node = [&] { return (double)r.irange(0, n - 1); };
    int extra = 0;
    auto src = [&](double at) {
        if (r.chance(0.5)) p.add("el", {P_SRC, (double)n, at, r.logRange(0.5, 1e3), Vn * r.range(0.8, 1.1)});
        else { const bool par = r.chance(0.3); p.add("el", {P_BAT, (double)n, at, r.logRange(1e-3, 0.1), r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.u(), par ? (double)r.irange(1, 4) : (double)r.irange(1, 12), (double)par, r.logRange(1e-3, 0.3), r.logRange(1e-3, 10)}); }
        ++extra;
    };
    src(0);
    for (int i = 1; i < n; ++i) {
        const double from = r.irange(0, i - 1); const int kind = r.irange(0, 9);
        if (kind < 5) {
            const int reg = r.chance(0.55) ? 0 : r.irange(1, 3); const double vo = reg == 1 ? r.range(0.2, 2) : reg == 2 ? r.logRange(0.05, 20) : reg == 3 ? r.logRange(1, 200) : Vn * r.range(0.3, 1.2);
            const double vz = reg == 1 ? Vn * vo : reg == 0 ? vo : Vn * 0.5; const bool lim = r.chance(0.3);
            p.add("el", {P_IN, from, (double)i, (double)r.chance(0.5), r.logRange(1, 1e3), r.range(0.6, 1), vo, (double)reg, (double)r.irange(lim ? 2 : (r.chance(0.1) ? 0 : 1), 4), r.chance(0.5) ? Vn * r.range(0.3, 0.8) : 0.0, r.chance(0.3) ? Vn * r.range(1.05, 1.5) : 0.0, r.chance(0.4) ? r.logRange(0.3, 30) : 0.0, r.chance(0.3) ? vz * r.range(0.3, 0.9) : 0.0, r.chance(0.4) ? vz * r.range(1.02, 1.6) : 0.0, (double)lim, (double)r.chance(0.3), r.logRange(10, 1000)});
        } else if (kind < 7) p.add("el", {P_DIO, from, (double)i, r.logRange(1, 100), r.chance(0.3) ? 0.0 : r.range(0.1, 1.5), r.chance(0.5) ? 0.0 : 1e-6, (double)r.chance(0.5)});
        else if (kind < 8) src(i); else p.add("el", {P_RES, from, (double)i, r.logRange(0.5, 100)});
    }
    if (r.chance(0.3)) src(node());
    for (int k = r.irange(1, 5); k > 0; --k) switch (r.irange(0, 4)) {
        case 0: p.add("el", {P_RES, node(), (double)n, r.logRange(1e-2, 3)}); break;
        case 1: case 2: p.add("el", {P_CPL, node(), (double)n, 0, r.logRange(1, 0.05 * Vn * Vn + 20), r.chance(0.5) ? 0.0 : Vn * r.range(0.2, 0.7)}); break;
        case 3: p.add("el", {P_POW, node(), r.chance(0.8) ? (double)n : node(), r.logRange(1, 100), r.pick(std::vector<double>{0.5, 0.8, 1, 1.2, 2})}); break;
        default: { const double uv = Vn * r.range(0.2, 0.7); p.add("el", {P_IPS, node(), 0, r.logRange(1, 0.02 * Vn * Vn + 10), uv, Vn * r.logRange(1e-3, 0.1), (double)r.irange(1, n), (double)r.chance(0.4), uv * r.range(1.0, 1.4), uv * r.range(0.3, 1), Vn * r.range(0.8, 1.3), r.chance(0.5) ? 0.0 : r.logRange(1e-6, 1e-3), (double)r.chance(0.3), r.u(), (double)r.irange(1, 8)}); break; }
    }
    const int total = n + extra + 12; double dt = r.logRange(0.02, 5);
    for (int s = r.irange(4, deep ? 60 : 25); s > 0; --s) {
        if (r.chance(0.55)) { const double k = r.irange(n, total); switch (r.irange(0, 9)) {
            case 0: p.add("block", {k, r.chance(0.5) ? 1.0 : 0.0, r.chance(0.2) ? 1.0 : r.u()}); break;
            case 1: case 2: p.add("set", {k, r.chance(0.15) ? 0.0 : r.chance(0.5) ? Vn * r.range(0.2, 1.4) : r.logRange(0.1, 300), (double)r.irange(0, 1)}); break;
            case 3: p.add("enable", {k, r.chance(0.6) ? 1.0 : 0.0}); break;
            case 4: p.add("bias", {k, r.range(-20, 100), r.chance(0.6) ? 1.0 : 0.0}); break;
            case 5: p.add("reset", {k}); break;
            case 6: p.add("cell", {k, (double)r.irange(0, 11), (double)r.irange(0, 3), r.chance(0.6) ? 1.0 : 0.0, r.chance(0.2) ? 0.0 : r.logRange(0.001, 10)}); break;
            case 7: p.add("runaway", {k, r.chance(0.5) ? 1.0 : 0.0, r.logRange(0.5, 30), r.logRange(0.05, 5)}); break;
            case 8: p.add("ips", {k, (double)r.irange(0, 5), (double)r.irange(0, 2), r.chance(0.6) ? 1.0 : 0.0}); break;
            default: if (r.chance(0.15)) p.add("restart"); break;
        } }
        if (r.chance(0.05)) dt = r.chance(0.2) ? 0.0 : r.logRange(0.02, 50);
        for (int k = r.irange(1, 3); k > 0; --k) p.add("step", {dt});
    }
}
void run(const Plan& p, Ctx& ctx) {
    HsTap hs; E02 e(ctx); e.hs = &hs; e.build(p);
    for (auto& q : e.L) if (q->t == P_IPS) q->total = q->x;
    try { for (auto& o : p.ops) { if (o.kind == "step") e.step(std::max(0.0, o.d(0))); else if (o.kind != "el") e.apply(o); } } catch (int) {}
}
Register e02({"E02", "distinct = a different circuit of sources, converters, supplies and loads or a different command and fault schedule; trivial = no converter or supply carries current", "trips, limit and bias state of every converter, bias of every diode, selected input of every supply",
    {{"power", 1, gen, run}}, 20000, 1000000,
    {"GunnsElectBattery and cells, GunnsElectConverterInput/Output, EpsConstantPowerLoad, GunnsElectRealDiode, GunnsElectIps, GunnsResistorPowerFunction, trip logic, Gunns solver (real code)"},
    {"bus voltage sources: the basic potential link (real code) under commanded values"},
    {"Steps that do not converge, the first step after a restart and a converter that has used up its allowed state changes are not compared with the laws"}});
} // namespace
void powerRun(const Plan& p, Ctx& c) { run(p, c); }
void powerGen(Rng& r, Plan& p, bool deep) { gen(r, p, deep); }
} // namespace dst
