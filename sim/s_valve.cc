// C02: valve controllers and the PID controller. Power loss, commands, manual operation and malfunctions in any order; a
// reference model says where each valve must be and what it draws; after the faults clear it must reach its command.
#include "common.hh"
#include "gunns-ts-models/common/controllers/fluid/TsPositionValveController.hh"
#include "gunns-ts-models/common/controllers/fluid/TsOpenCloseValveController.hh"
#include "gunns-ts-models/common/controllers/fluid/TsSpeedValveController.hh"
#include "gunns-ts-models/common/controllers/fluid/TsToggleValveController.hh"
#include "gunns-ts-models/common/controllers/fluid/TsDualSolenoidValveController.hh"
#include "gunns-ts-models/common/controllers/valveAssemblies/TsOpenCloseValveAssembly.hh"
#include "gunns-ts-models/common/controllers/valveAssemblies/TsToggleValveAssembly.hh"
#include "gunns-ts-models/common/controllers/valveAssemblies/TsDualSolenoidValveAssembly.hh"
#include "gunns-ts-models/common/controllers/fluid/TsTValveController.hh"
#include "gunns-ts-models/common/controllers/generic/TsPidController.hh"
#include <memory>
namespace dst {
namespace {
enum Kind { POWERED, POSITION, OPENCLOSE, SPEED, TOGGLE, SOLENOID, ASSEMBLY, PID, TASSEMBLY, SASSEMBLY, TVALVE, KINDS };
const char* kindName[] = {"powered", "position", "open-close", "speed", "toggle", "solenoid", "assembly", "pid", "toggle-assembly", "solenoid-assembly", "t-valve"};
const char* malfName[] = {"valve_stuck", "valve_fail_to", "manual_disabled", "power_good", "power_fail", "drive_stuck", "drive_fail_to"};
typedef TsPoweredValveController Pv;
struct Valve {
    int kind; double lo, hi, flo, fhi, transit, ref, hold, move, stuckP, volt, tol; bool eot; int latch;
    bool m[7]; double failTo, driveTo, manVal; bool manual, supply, enable; double cmd; bool open, close, sOpen, sClose, solMalf[2], senMalf[2], toggleCmd, armed; int handle; float handlePos;
    double pos, before, power; bool lower, upper, stuck, vague;       // reference outputs
    std::unique_ptr<Pv> pv; std::unique_ptr<TsDualSolenoidValveController> dso; TsDualSolenoidValveController* ds; std::unique_ptr<TsOpenCloseValveAssembly> as; std::unique_ptr<TsToggleValveAssembly> ta; std::unique_ptr<TsDualSolenoidValveAssembly> da; std::unique_ptr<TsTValveController> tv; std::unique_ptr<Valve> path[2]; SensorBooleanAi* sen[2]; float ft; bool shown[2]; TsValveController* v; Pv* p;
    // PID
    std::unique_ptr<TsPidController> pid; double gp, gi, gd, interval, in, set, timer, integ, err, out, scale0;
    Valve() : kind(0), failTo(0), driveTo(0), manVal(0), manual(false), supply(false), enable(false), cmd(0), open(false), close(false), sOpen(false), sClose(false), toggleCmd(false), armed(true), handle(0), handlePos(0), power(0), vague(false), ds(0), ft(0), v(0), p(0) { sen[0] = sen[1] = 0; shown[0] = true; shown[1] = false; for (bool& x : m) x = false; solMalf[0] = solMalf[1] = senMalf[0] = senMalf[1] = false; }
    double scale() const { return (hi - lo) / (ref * transit); }
    void place(double target) {
        before = m[0] ? pos : m[1] ? failTo : manual && !m[2] ? manVal : target;
        stuck = m[0] || m[1]; lower = before <= lo; upper = before >= hi; pos = std::max(std::min(before, hi), lo);
    }
    void drive(double c, double dt) {
        const bool on = (supply || m[3]) && !m[4] && enable; double target = pos;
        if (!m[5]) target = m[6] ? driveTo : !on ? (latch == Pv::NORMALLY_CLOSED ? lo : latch == Pv::NORMALLY_OPEN ? hi : pos) : pos + c * scale() * dt;
        if (!on) power = 0; else if (std::fabs(c) > DBL_EPSILON && (!manual || m[2])) { const double dir = c * scale(); power = m[0] || m[5] || (pos <= lo && dir < 0) || (pos >= hi && dir > 0) ? stuckP : move; } else power = hold;
        place(target);
    }
    void refStep(double dt) {
        double c = 0;
        switch (kind) {
        case POWERED: c = cmd; break;
        case POSITION: { const double s = cmd - sensedPos(); const double lim = dt * std::fabs(scale()); if (std::fabs(s) >= tol && dt > DBL_EPSILON) c = std::max(-lim, std::min(lim, s)) / (dt * scale()); break; }
        case OPENCLOSE: case ASSEMBLY:
            if (eot) c = open && !close && !sOpen ? 1 : !open && close && !sClose ? -1 : 0;
            else { c = open && !close ? 1 : !open && close ? -1 : 0; if (handle && kind == OPENCLOSE) c = handlePos > 1e-6 ? 1 : -1; }
            break;
        case SPEED: c = cmd; if (eot) { const double dir = c * scale(); if ((dir > 0 && sOpen) || (dir < 0 && sClose)) c = 0; } break;
        case TOGGLE: case TASSEMBLY: {
            bool go = false; if (dt > DBL_EPSILON) { if (armed && toggleCmd && enable) { armed = false; go = true; } else if (!armed && !toggleCmd && enable) armed = true; }
            const double mid = 0.5 * (lo + hi); if (go) { if (pos < mid) { if (!eot || !sOpen) c = (hi - lo) / dt; } else if (!eot || !sClose) c = -(hi - lo) / dt; } break; }
        case SOLENOID: case SASSEMBLY: {
            const bool o = open && !solMalf[0], k = close && !solMalf[1]; const double mid = 0.5 * (hi + lo); double t;
            if (o && !k) t = hi; else if (k && !o) t = lo; else if (latch == TsDualSolenoidValveController::NORMALLY_OPEN) t = hi; else if (latch == TsDualSolenoidValveController::NORMALLY_CLOSED) t = lo; else t = pos >= mid ? hi : lo;
            place(t); return; }
        }
        drive(c, dt);
    }
    double sensedPos() const { return sensorPos; }
    double sensorPos;
    void build(const Op& o) {
        kind = std::abs(o.i(0)) % KINDS; sensorPos = 0;
        if (kind == PID) {
            gp = o.d(1); gi = o.d(2); gd = o.d(3); interval = std::max(1e-3, o.d(4)); lo = o.d(5); hi = std::max(lo + 1e-3, o.d(6)); in = o.d(7); set = o.d(8); timer = 0; integ = o.d(9); out = o.d(10); err = in - set; scale0 = 1;
            pid.reset(new TsPidController); pid->initialize(TsPidControllerConfigData(gp, gi, gd, interval, lo, hi), TsPidControllerInputData(in, set, 0, integ, out), "pid"); return;
        }
        lo = o.d(1); hi = lo + std::max(1e-2, o.d(2)); flo = std::min(1.0, std::max(0.0, o.d(3))); fhi = std::min(1.0, std::max(flo + 1e-3, o.d(4))); if (fhi <= flo) { flo = 0; fhi = 1; }
        transit = std::max(1e-2, o.d(5)); ref = std::fabs(o.d(6)) < 1e-3 ? 1 : o.d(6); hold = std::max(1e-3, o.d(7)); move = std::max(1e-3, o.d(8)); stuckP = std::max(1e-3, o.d(9)); volt = 28; eot = o.b(10); latch = std::abs(o.i(11)) % 3; tol = std::max(0.0, o.d(12)) * (hi - lo);
        if (kind == POSITION) ref = 1;      // a position controller has no reference command
        pos = std::min(hi, std::max(lo, lo + o.d(13) * (hi - lo))); sensorPos = pos;
        TsPoweredValveControllerConfigData c(lo, hi, flo, fhi, transit, ref, hold, move, stuckP, volt, eot, static_cast<Pv::LatchType>(latch)), cc(c); const TsPoweredValveControllerInputData i(pos, false, 0, false, false, 0);
        sOpen = pos > hi - FLT_EPSILON; sClose = pos < lo + FLT_EPSILON;
        if (kind == POWERED) { pv.reset(new Pv); pv->initialize(cc, i, "valve"); }
        else if (kind == POSITION) { auto* x = new TsPositionValveController; pv.reset(x); x->initialize(TsPositionValveControllerConfigData(lo, hi, flo, fhi, transit, ref, hold, move, stuckP, volt, eot, static_cast<Pv::LatchType>(latch), tol), i, "valve"); cmd = pos; }
        else if (kind == OPENCLOSE) { auto* x = new TsOpenCloseValveController; pv.reset(x); x->initialize(cc, i, "valve"); }
        else if (kind == SPEED) { auto* x = new TsSpeedValveController; pv.reset(x); x->initialize(cc, i, "valve"); }
        else if (kind == TOGGLE) { auto* x = new TsToggleValveController; pv.reset(x); x->initialize(cc, i, "valve"); }
        else if (kind == SOLENOID) { dso.reset(ds = new TsDualSolenoidValveController); ds->initialize(TsDualSolenoidValveControllerConfigData(lo, hi, flo, fhi, static_cast<TsDualSolenoidValveController::LatchType>(latch)), TsDualSolenoidValveControllerInputData(pos), "valve"); v = ds; }
        else if (kind == TVALVE) {
            const TsValveControllerConfigData tc(lo, hi, flo, fhi); tv.reset(new TsTValveController);
            tv->initialize(TsTValveControllerConfigData(tc, tc), TsTValveControllerInputData(TsTValveController::NONE, TsValveControllerInputData(pos), TsValveControllerInputData(pos)), "valve");
            for (int k = 0; k < 2; ++k) { path[k].reset(new Valve); Valve& q = *path[k]; q.kind = TVALVE; q.lo = lo; q.hi = hi; q.flo = flo; q.fhi = fhi; q.v = k ? &tv->mBPath : &tv->mAPath; q.place(lo); q.pos = lo; }
            pos = lo; lower = upper = stuck = false; return;
        }
        else {
            ft = (hi - lo) * 0.01; const SensorBooleanAiConfigData co(false, hi, ft), cl(false, lo, ft); const SensorBooleanAiInputData si(true, false, pos);
            if (kind == ASSEMBLY) { as.reset(new TsOpenCloseValveAssembly); as->initialize(TsOpenCloseValveAssemblyConfigData(TsOpenCloseValveAssemblyConfigData(cc, co, cl)), TsOpenCloseValveAssemblyInputData(i, si, si), "valve"); v = p = &as->mController; sen[0] = &as->mSensorOpen; sen[1] = &as->mSensorClosed; }
            else if (kind == TASSEMBLY) { ta.reset(new TsToggleValveAssembly); ta->initialize(TsToggleValveAssemblyConfigData(TsToggleValveAssemblyConfigData(cc, co, cl)), TsToggleValveAssemblyInputData(i, si, si), "valve"); v = p = &ta->mController; sen[0] = &ta->mSensorOpen; sen[1] = &ta->mSensorClosed; }
            else { da.reset(new TsDualSolenoidValveAssembly); da->initialize(TsDualSolenoidValveAssemblyConfigData(TsDualSolenoidValveControllerConfigData(lo, hi, flo, fhi, static_cast<TsDualSolenoidValveController::LatchType>(latch)), co, cl), TsDualSolenoidValveAssemblyInputData(TsDualSolenoidValveControllerInputData(pos), si, si), "valve"); v = ds = &da->mController; sen[0] = &da->mSensorOpen; sen[1] = &da->mSensorClosed; }
            shown[0] = sen[0]->getSensedOutput(); shown[1] = sen[1]->getSensedOutput();
        }
        if (pv) { p = pv.get(); v = p; }
        if (!ds) { const double keep = pos; drive(0, 0); (void)keep; } else place(pos);      // initialisation runs one update, unpowered
    }
    void apply() {
        if (kind == PID) { pid->setInput(in); pid->setSetpoint(set); return; }
        if (kind == TVALVE) {
            for (int k = 0; k < 2; ++k) { Valve& q = *path[k]; for (int j = 0; j < 3; ++j) q.m[j] = m[k ? 3 + j : j]; q.failTo = k ? driveTo : failTo; q.v->mMalfValveStuckFlag = q.m[0]; q.v->mMalfValveFailToFlag = q.m[1]; q.v->mMalfValveFailToValue = q.failTo; q.v->mMalfManualFlag = q.m[2]; q.manual = true; }
            const int sel = open != close ? (open ? 1 : 2) : 0; path[0]->manVal = sel == 1 ? hi : lo; path[1]->manVal = sel == 2 ? hi : lo; tv->setPosition(static_cast<TsTValveController::PositionType>(sel)); return;
        }
        v->mMalfValveStuckFlag = m[0]; v->mMalfValveFailToFlag = m[1]; v->mMalfValveFailToValue = failTo; v->mMalfManualFlag = m[2]; v->setManualPosition(manual, manVal);
        if (p) { p->mMalfPowerGoodFlag = m[3]; p->mMalfPowerFailFlag = m[4]; p->mMalfDriveStuckFlag = m[5]; p->mMalfDriveFailToFlag = m[6]; p->mMalfDriveFailToValue = driveTo; p->setSupplyVoltageFlag(supply); }
        switch (kind) {
        case POWERED: p->setEnabledFlag(enable); p->setCmd(cmd); break;
        case POSITION: { auto* x = static_cast<TsPositionValveController*>(p); x->setCommand(TsPositionValveCmd(enable, cmd)); x->setSensed(sensorPos); break; }
        case OPENCLOSE: { auto* x = static_cast<TsOpenCloseValveController*>(p); x->setCommand(TsOpenCloseValveCmd(enable, open, close)); x->setSensed(TsOpenCloseValveSensed(sOpen, sClose)); x->mHandleStowed = static_cast<TsOpenCloseValveController::Handle>(handle); x->mHandlePosition = handlePos; break; }
        case SPEED: { auto* x = static_cast<TsSpeedValveController*>(p); x->setCommand(TsSpeedValveCmd(enable, cmd)); x->setSensed(TsOpenCloseValveSensed(sOpen, sClose)); break; }
        case TOGGLE: { auto* x = static_cast<TsToggleValveController*>(p); x->setEnabledFlag(enable); x->setToggle(toggleCmd); x->setSensed(TsOpenCloseValveSensed(sOpen, sClose)); break; }
        case SOLENOID: case SASSEMBLY: ds->mMalfOpenSolenoidFail = solMalf[0]; ds->mMalfCloseSolenoidFail = solMalf[1]; ds->setOpenSolenoidCmd(open); ds->setCloseSolenoidCmd(close); if (da) { da->setOpenSolenoidCmd(open); da->setCloseSolenoidCmd(close); } break;
        case ASSEMBLY: as->setCommand(TsOpenCloseValveCmd(enable, open, close)); as->setSupplyVoltageFlag(supply); break;
        case TASSEMBLY: ta->setEnabledFlag(enable); ta->setToggle(toggleCmd); ta->setSupplyVoltageFlag(supply); break;
        }
        for (int k = 0; k < 2; ++k) if (sen[k]) sen[k]->mMalfFailStuckFlag = senMalf[k];
    }
    void sense() {   // the position sensors, which the assemblies have built in
        if (sen[0]) { sOpen = sen[0]->getSensedOutput(); sClose = sen[1]->getSensedOutput(); }
        else { if (!senMalf[0]) { sOpen = pos > hi - 1e-9 * (hi - lo); sensorPos = pos; } if (!senMalf[1]) sClose = pos < lo + 1e-9 * (hi - lo); }
    }
    void run(double dt) { if (as) as->update(dt); else if (ta) ta->update(dt); else if (da) da->update(dt); else if (ds) ds->update(dt); else p->update(dt); }
    void step(double dt, Ctx& ctx, int at, int id) {
        apply();
        if (kind == PID) {
            timer += dt; const bool due = timer >= interval;
            if (due) { const double e = in - set; integ += e * timer; const double d = (e - err) / timer; out += gp * e + gi * integ + gd * d; scale0 = std::fabs(gp * e) + std::fabs(gi * integ) + std::fabs(gd * d) + std::fabs(gd * err / timer) + std::fabs(out); err = e; timer = 0; out = std::max(lo, std::min(hi, out)); }
            const double got = pid->update(dt);
            ctx.check(std::fabs(got - out) <= 1e-9 * scale0 + 1e-12, fmt("valve: step %d: PID %d puts out %.12g, should %.12g", at, id, got, out));
            ctx.check(!due || (got >= lo && got <= hi), fmt("valve: step %d: PID %d puts out %.12g, its limits are %.9g and %.9g", at, id, got, lo, hi));
            out = got; integ = std::fabs(pid->mIntegral - integ) < 1e-9 * (1 + std::fabs(integ)) ? pid->mIntegral : integ; ctx.log(fmt("%.9g", got)); if (due) ctx.probe("pid_update"); return;
        }
        if (kind == TVALVE) { tv->update(dt); for (auto& q : path) { q->place(q->pos); q->judge(ctx, at, id); q->pos = q->v->getPosition(); } lower = path[0]->lower; upper = path[0]->upper; ctx.log(fmt("%.9g %.9g", path[0]->pos, path[1]->pos)); return; }
        refStep(dt); run(dt); judge(ctx, at, id);
        const double r = hi - lo, got = v->getPosition(), tolp = 1e-9 * (r + std::fabs(lo) + std::fabs(hi));
        if (p) {
            if (!vague) ctx.check(p->getPower() == power, fmt("valve: step %d: valve %d (%s) draws %.9g W, should %.9g W", at, id, kindName[kind], p->getPower(), power));
            const double res = power > 0 ? volt * volt / p->getPower() : 0; if (power > 0 && p->getPower() > 0) ctx.check(std::fabs(p->getResistance() - res) <= 1e-9 * res, fmt("valve: step %d: valve %d (%s) shows %.9g ohm, should %.9g ohm", at, id, kindName[kind], p->getResistance(), res));
        }
        else { ctx.check((ds->getOpenSolenoidLoad() == LoadON) == (open && !solMalf[0]) && (ds->getCloseSolenoidLoad() == LoadON) == (close && !solMalf[1]), fmt("valve: step %d: valve %d shows the wrong solenoid loads", at, id)); }
        for (int k = 0; k < 2; ++k) if (sen[k]) {      // the built-in sensor shows this step's position, or what it showed when it stuck
            const bool now = sen[k]->getSensedOutput(); const double off = std::fabs(static_cast<float>(got) - static_cast<float>(k ? lo : hi));
            if (senMalf[k] || std::fabs(off - ft) > 1e-6 * (std::fabs(lo) + std::fabs(hi))) ctx.check(now == (senMalf[k] ? shown[k] : off <= ft), fmt("valve: step %d: valve %d (%s) at %.9g has its %s switch %s", at, id, kindName[kind], got, k ? "closed" : "open", now ? "on" : "off"));
            shown[k] = now;
            ctx.check((as ? (k ? as->getCloseSensed() : as->getOpenSensed()) : ta ? (k ? ta->getCloseSensed() : ta->getOpenSensed()) : (k ? da->getCloseSensed() : da->getOpenSensed())) == now, fmt("valve: step %d: valve %d (%s) does not report its %s switch", at, id, kindName[kind], k ? "closed" : "open"));
        }
        pos = got; vague = !(pos == lo || pos == hi) && (pos < lo + tolp || pos > hi - tolp);      // the next power may go either way
        sense(); ctx.log(fmt("%.9g", got));
    }
    void judge(Ctx& ctx, int at, int id) {
        const double r = hi - lo, got = v->getPosition(), tolp = 1e-9 * (r + std::fabs(lo) + std::fabs(hi));
        ctx.check(got >= lo && got <= hi, fmt("valve: step %d: valve %d (%s) is at %.12g, outside %.9g to %.9g", at, id, kindName[kind], got, lo, hi));
        ctx.check(std::fabs(got - pos) <= tolp, fmt("valve: step %d: valve %d (%s) is at %.9g, should be at %.9g", at, id, kindName[kind], got, pos));
        const double f = flo + (fhi - flo) * (pos - lo) / r; ctx.check(std::fabs(v->getFluidPosition() - f) <= 1e-7 * (1 + (std::fabs(lo) + std::fabs(hi)) / r), fmt("valve: step %d: valve %d (%s) gives the fluid %.9g, should %.9g", at, id, kindName[kind], v->getFluidPosition(), f));
        ctx.check(v->mStuckFlag == stuck, fmt("valve: step %d: valve %d (%s) is %s stuck", at, id, kindName[kind], stuck ? "not shown" : "shown"));
        auto sure = [&](double lim) { return before == lim || std::fabs(before - lim) > tolp; };
        if (sure(lo)) ctx.check(v->mLowerLimitFlag == lower, fmt("valve: step %d: valve %d (%s) is %s at its lower limit", at, id, kindName[kind], lower ? "not shown" : "shown"));
        if (sure(hi)) ctx.check(v->mUpperLimitFlag == upper, fmt("valve: step %d: valve %d (%s) is %s at its upper limit", at, id, kindName[kind], upper ? "not shown" : "shown"));
    }
};
void run(const Plan& p, Ctx& ctx) {
    std::vector<std::unique_ptr<Valve> > v; for (auto& o : p.ops) if (o.kind == "valve") { v.emplace_back(new Valve); v.back()->build(o); }
    if (v.empty()) return; int at = 0;
    auto steps = [&](double dt) { ++at; ctx.advance(dt); for (size_t i = 0; i < v.size(); ++i) { v[i]->step(dt, ctx, at, i); unsigned h = 0; for (bool b : v[i]->m) h = 2 * h + b; ctx.state(fmt("%d %u %d%d%d%d", v[i]->kind, h, v[i]->manual, v[i]->supply, v[i]->enable, v[i]->kind == PID ? 0 : (v[i]->lower ? 1 : v[i]->upper ? 2 : 0))); } };
    for (auto& o : p.ops) {
        Valve& d = *v[static_cast<size_t>(std::max(0, o.i(0))) % v.size()];
        if (o.kind == "malf") { if (d.kind == PID) continue; const int w = std::abs(o.i(1)) % 11; const bool on = o.b(2); const double x = d.lo + o.d(3) * (d.hi - d.lo);
            if (w < 7) { d.m[w] = on; if (w == 1) d.failTo = x; if (w == 6) d.driveTo = x; ctx.fault(std::string("malf_") + malfName[w], on); } else if (w < 9) { d.solMalf[w - 7] = on; ctx.fault("malf_solenoid", on); } else { d.senMalf[w - 9] = on; ctx.fault("malf_sensor_stuck", on); } }
        else if (o.kind == "power") { d.supply = o.b(1); ctx.fault(d.supply ? "power_restored" : "power_lost"); }
        else if (o.kind == "enable") d.enable = o.b(1);
        else if (o.kind == "manual") { if (d.kind == PID) continue; d.manual = o.b(1); d.manVal = d.lo + std::min(1.0, std::max(0.0, o.d(2))) * (d.hi - d.lo); ctx.fault("manual_operation", d.manual); }
        else if (o.kind == "command") { d.open = o.b(2); d.close = o.b(3); d.toggleCmd = o.b(4); if (d.kind == POSITION) d.cmd = d.lo + std::min(1.0, std::max(0.0, o.d(1))) * (d.hi - d.lo); else if (d.kind == PID) { d.in = o.d(1) * 10; d.set = o.d(5); } else d.cmd = o.d(1); }
        else if (o.kind == "handle") { d.handle = o.b(1); d.handlePos = o.b(2) ? 1.0f : 0.0f; }
        else if (o.kind == "step") { const double dt = std::max(0.0, o.d(1)); if (dt == 0) ctx.fault("zero_time_step"); else if (dt > 1) ctx.fault("long_time_step"); for (int k = std::max(1, o.i(2)); k > 0; --k) steps(dt); }
    }
    // The faults stop: power, enable and a steady command must bring every valve where it is told within its transit time.
    double longest = 0; const double dt = 0.1;
    for (auto& d : v) { if (d->kind == PID) continue; for (bool& x : d->m) x = false; d->solMalf[0] = d->solMalf[1] = d->senMalf[0] = d->senMalf[1] = false; d->manual = false; d->supply = d->enable = true; d->handle = 0; d->open = d->cmd >= 0; d->close = !d->open; if (d->kind != POSITION) d->cmd = d->open ? 1 : -1; d->sense(); longest = std::max(longest, d->transit * std::max(1.0, std::fabs(d->ref))); }
    const int n = std::min(600, static_cast<int>(longest / dt) + 6); if (longest / dt > 590) return;
    for (int k = 0; k < n; ++k) steps(dt);
    for (size_t i = 0; i < v.size(); ++i) {
        Valve& d = *v[i]; if (d.kind == PID || d.kind == TVALVE || d.kind == TOGGLE || d.kind == TASSEMBLY || d.kind == POWERED || d.kind == SPEED) continue;
        const double want = d.kind == POSITION ? d.cmd : (d.open ? 1 : -1) * (d.ds ? 1 : d.ref) > 0 ? d.hi : d.lo, r = d.hi - d.lo;
        if ((d.kind == OPENCLOSE || d.kind == ASSEMBLY) && d.eot && d.ref < 0) continue;      // end-of-travel switches stop the reversed drive at once
        ctx.check(std::fabs(d.pos - want) <= (d.kind == POSITION ? d.tol : d.kind == ASSEMBLY && d.eot ? 0.011 * r : 0) + 1e-6 * (r + std::fabs(want)), fmt("valve: %d steps after the last fault valve %zu (%s) is at %.9g, told to go to %.9g", n, i, kindName[d.kind], d.pos, want));
    }
    ctx.probe("settled");
}
void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(1, deep ? 4 : 3), steps = r.irange(5, deep ? 150 : 50);
    for (int i = 0; i < n; ++i) {
        const int kind = r.irange(0, KINDS - 1);
        if (kind == PID) { const double lim = r.logRange(0.1, 100); p.add("valve", {(double)kind, r.range(-1, 1), r.range(-0.5, 0.5), r.range(-0.1, 0.1), r.logRange(0.01, 3), -lim * r.u(), lim, r.range(-10, 10), r.range(-10, 10), r.range(-2, 2), r.range(-1, 1)}); continue; }
        const double lo = r.chance(0.5) ? 0 : r.range(-50, 50), range = r.chance(0.4) ? 1 : r.logRange(0.5, 100), a = r.chance(0.5) ? 0 : r.u() * 0.5, b = r.chance(0.5) ? 1 : 0.5 + 0.5 * r.u();
        p.add("valve", {(double)kind, lo, range, a, b, r.logRange(0.05, 20), r.chance(0.6) ? 1.0 : (r.chance(0.5) ? -1 : 1) * r.logRange(0.3, 3), r.logRange(1, 20), r.logRange(1, 60), r.logRange(1, 90), (double)r.chance(0.5), (double)r.irange(0, 2), r.chance(0.4) ? 0.0 : r.logRange(1e-4, 0.05), r.chance(0.5) ? 0.5 * r.irange(0, 2) : r.u()});
    }
    for (int i = 0; i < n; ++i) { if (r.chance(0.8)) p.add("power", {(double)i, 1}); if (r.chance(0.8)) p.add("enable", {(double)i, 1}); }
    for (int s = 0; s < steps; ++s) {
        while (r.chance(0.25)) p.add("malf", {(double)r.irange(0, n - 1), (double)r.irange(0, 10), (double)r.chance(0.4), r.chance(0.2) ? r.range(-1, 2) : r.u()});
        if (r.chance(0.12)) p.add("power", {(double)r.irange(0, n - 1), (double)r.chance(0.7)});
        if (r.chance(0.08)) p.add("enable", {(double)r.irange(0, n - 1), (double)r.chance(0.75)});
        if (r.chance(0.1)) p.add("manual", {(double)r.irange(0, n - 1), (double)r.chance(0.4), r.chance(0.3) ? 0.5 : r.u()});
        if (r.chance(0.05)) p.add("handle", {(double)r.irange(0, n - 1), (double)r.chance(0.4), (double)r.chance(0.5)});
        if (r.chance(0.5)) p.add("command", {(double)r.irange(0, n - 1), r.chance(0.2) ? 0.0 : r.range(-2, 2), (double)r.chance(0.5), (double)r.chance(0.4), (double)r.chance(0.5), r.range(-10, 10)});
        p.add("step", {0, r.chance(0.05) ? 0.0 : r.chance(0.05) ? r.range(1, 10) : 0.1, (double)(r.chance(0.8) ? 1 : r.irange(2, 20))});
    }
}
Register c02({"C02", "distinct = different valves, commands, power or malfunction history; trivial = no step is taken", "kind of valve, set of active malfunctions, manual, power and enable, end of travel", {
    Scenario{"valves", 1, gen, run}}, 20000, 800000,
    {"TsValveController", "TsPoweredValveController", "TsPositionValveController", "TsOpenCloseValveController", "TsSpeedValveController", "TsToggleValveController", "TsToggleValveCmd", "TsDualSolenoidValveController", "TsOpenCloseValveAssembly", "TsToggleValveAssembly", "TsDualSolenoidValveAssembly", "TsTValveController", "SensorBooleanAi", "TsPidController"}, {"valve position sensors outside the assemblies are the harness's"},
    {"Toggle command queues are not used", "A reversed drive (negative reference command) with end-of-travel switches is not required to arrive"}});
} // namespace
} // namespace dst
