// C03: pump motors with their controller, pulse-width motors, thermostats heating a wall, and smoke detectors, under supply,
// command, temperature, jam and override disturbances in any order; each step is compared with the law of the device, and
// once the disturbances stop the loop must close again.
#include "common.hh"
#include "seams.hh"
#include "gunns-ts-models/common/controllers/fluid/TsPumpMotorController.hh"
#include "gunns-ts-models/common/effectors/mechanical/motor/TsDcPwmDynMotor.hh"
#include "gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.hh"
#include "gunns-ts-models/common/sensors/TsOpticSmokeDetector.hh"
#include <memory>
namespace dst {
namespace {
enum Kind { PUMP, PWM, THERMOSTAT, SMOKE, KINDS };
const char* kindName[] = {"pump motor", "pulse-width motor", "thermostat", "smoke detector"};
const double RPM = 60.0 / (2.0 * M_PI);
const char* malfName[] = {"degrade", "jam", "speed_override", "heat_bias", "power_fail", "power_override", "command_override", "setpoint_low", "setpoint_high", "command_on", "command_off", "kill_switch"};
struct Dev {
    int kind; std::vector<double> c; bool m[12]; double mv[12];
    std::unique_ptr<TsPumpMotorController> pump; std::unique_ptr<TsDcPwmDynMotor> pwm; std::unique_ptr<Thermostat> th; std::unique_ptr<TsOpticSmokeDetector> sm;
    double volts, torque, command, temp, sensedSpeed; bool enable, useReal;
    double speed, pw, err, phase; bool tripped, startup;                 // pump and motor reference state
    double wall, env, offset[4]; UserLoadMode nominal, setpt, actual; double bias; bool sensorPower[4]; int sensors;  // thermostat
    bool bit, inProc; float timer, smoke; double peak, top;
    Dev() : kind(0), volts(0), torque(0), command(0), temp(300), sensedSpeed(0), enable(false), useReal(true), speed(0), pw(0), err(0), phase(0), tripped(false), startup(true), wall(0), env(0), nominal(LoadOFF), setpt(LoadOFF), actual(LoadOFF), bias(0), sensors(1), bit(false), inProc(false), timer(0), smoke(0), peak(0), top(0) { for (int i = 0; i < 12; ++i) { m[i] = false; mv[i] = 0; } for (int i = 0; i < 4; ++i) { offset[i] = 0; sensorPower[i] = true; } }
    double P(int i, double lo, double hi) const { const double x = i < static_cast<int>(c.size()) ? c[i] : 0; return std::min(hi, std::max(lo, x)); }
    // pump: 1 winding, 2 torque constant, 3 friction, 4 friction min speed, 5 inertia, 6 forcing, 7 damping, 8 cutoff, 9 trip, 10 reset, 11 vmin, 12 vmax, 13 load, 14 noise, 15 noise freq, 16 startup limit
    void build(const Op& o) {
        c.clear(); for (size_t i = 0; i < o.a.size(); ++i) c.push_back(o.d(i)); kind = std::abs(o.i(0)) % KINDS;
        if (kind == PUMP) {
            c[1] = P(1, 0.01, 100); c[2] = P(2, 1e-4, 10); c[3] = P(3, 0, 1); c[4] = P(4, 0, 1e4); c[5] = P(5, 1e-6, 10); c[6] = P(6, 0, 1); c[7] = P(7, 0, 1); c[8] = P(8, 1e-3, 1); c[10] = P(10, 200, 400); c[9] = std::max(c[10] + 1, P(9, 200, 500)); c[11] = P(11, 0, 100); c[12] = std::max(c[11] + 1, P(12, 1, 400)); c[13] = P(13, 0, 100); c[14] = P(14, 0, 100); c[15] = P(15, 0, 10); c[16] = P(16, 0.1, 1e15);
            TsPumpMotorControllerConfigData a(DcDynPumpMotorConfigData(c[1], c[2], c[3], c[4], c[5]), c[6], c[7], c[8], c[9], c[10], c[11], c[12], c[13], c[14], c[15], c[16]), b; b = a; const TsPumpMotorControllerConfigData cc(b);
            pump.reset(new TsPumpMotorController); pump->initialize(cc, TsPumpMotorControllerInputData(DcDynPumpMotorInputData(0, 1e15, 0), 0, 0, 300, true, false, 0, 0), "pump");
        } else if (kind == PWM) {
            c[1] = P(1, 0, 1); c[2] = P(2, 0, 1); c[3] = P(3, 0, 0.01); c[4] = -P(4, 0, 1); c[5] = P(5, 0, 1); c[6] = P(6, 0.01, 100); c[7] = P(7, 1e-6, 10); c[8] = P(8, 1, 1e6);
            TsDcPwmDynMotorConfigData a(c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]), b; b = a; const TsDcPwmDynMotorConfigData cc(b); pwm.reset(new TsDcPwmDynMotor); pwm->initialize(cc, TsDcPwmDynMotorInputData(0, 0, 0), "pwm");
        } else if (kind == THERMOSTAT) {    // 1 low, 2 band, 3 sensors, 4 logic, 5 heater rise K/s, 6 loss 1/s, 7 environment, 8.. sensor offsets
            sensors = 1 + std::abs(static_cast<int>(P(3, 0, 3))); c[1] = P(1, 150, 400); c[2] = P(2, 0.5, 50); c[5] = P(5, 0.01, 5); c[6] = P(6, 1e-4, 0.2); env = wall = P(7, 100, 500); for (int i = 0; i < sensors; ++i) offset[i] = P(8 + i, -5, 5);
            SensorAnalogConfigData sc(0, 1000, 0, 0, 1, 0, 0, 0); SensorAnalogInputData si(true, wall); const int logic = sensors == 1 ? 1 : std::abs(o.i(4)) % 2 + 2; c[4] = logic;
            th.reset(new Thermostat); const ThermostatConfigData a(sc, c[1], c[1] + c[2], sensors, static_cast<ThermostatConfigData::LogicType>(logic)); th->initialize(ThermostatConfigData(a), ThermostatInputData(ThermostatInputData(si)), "thermostat");
            nominal = th->mCommandNominal; setpt = th->mCommandSetpt; actual = th->mCommandActual;
        } else {                            // 1 recovery time, 2 slope, 3 intercept, 4 slope, 5 intercept, 6 nominal obscuration, 7 contribution
            TsOpticSmokeDetectorConfigData d; d.bitRecoveryTime = P(1, 0.01, 20); d.obsPercentVoltSlope = P(2, -1, 1); d.obsVoltIntercept = P(3, -10, 10); d.scatPercentVoltSlope = P(4, -5, 5); d.scatVoltIntercept = P(5, -5, 5); d.nominalObscuration = P(6, -9, 80); d.obsSmokeContributer = P(7, 0, 100);
            c[1] = d.bitRecoveryTime; c[2] = d.obsPercentVoltSlope; c[3] = d.obsVoltIntercept; c[4] = d.scatPercentVoltSlope; c[5] = d.scatVoltIntercept; c[6] = d.nominalObscuration; c[7] = d.obsSmokeContributer;
            TsOpticSmokeDetectorInputData i; sm.reset(new TsOpticSmokeDetector); sm->initialize(d, i, "smoke");
        }
    }
    void malf(const Op& o, Ctx& ctx) {
        const int w = std::abs(o.i(1)) % 12; const bool on = o.b(2); double x = o.d(3); m[w] = on;
        switch (w) { case 0: x = std::min(0.99, std::fabs(x)); break; case 1: x = std::fabs(x); break; case 2: x = 3000 * std::fabs(x); break; case 3: x = 50 * x; break; case 5: x = 60 * std::fabs(x); break; case 6: x = 4000 * x; break; case 7: case 8: x = 200 + 200 * std::fabs(x); break; }
        mv[w] = x; ctx.fault(std::string("malf_") + malfName[w], on);
    }
    void motorMalf(DcDynPumpMotor& d) { d.mMalfDegradeFlag = m[0]; d.mMalfDegradeValue = mv[0]; d.mMalfJamFlag = m[1]; d.mMalfJamValue = mv[1]; d.mMalfSpeedOverrideFlag = m[2]; d.mMalfSpeedOverrideValue = mv[2]; d.mMalfHeatRateBiasFlag = m[3]; d.mMalfHeatRateBiasValue = mv[3]; }
    void same(Ctx& ctx, int at, int id, const char* what, double got, double want, double scale = 0) { ctx.check(std::fabs(got - want) <= 1e-9 * (std::fabs(want) + scale) + 1e-12, fmt("motor: step %d: %s %d: %s is %.12g, should be %.12g", at, kindName[kind], id, what, got, want)); }
    void same(Ctx& ctx, int at, int id, const char* what, bool got, bool want) { ctx.check(got == want, fmt("motor: step %d: %s %d: %s is %d, should be %d", at, kindName[kind], id, what, got, want)); }
    void step(double dt, Ctx& ctx, int at, int id) {
        if (kind == PUMP) stepPump(dt, ctx, at, id); else if (kind == PWM) stepPwm(dt, ctx, at, id); else if (kind == THERMOSTAT) stepThermostat(dt, ctx, at, id); else stepSmoke(dt, ctx, at, id);
    }
    void stepPump(double dt, Ctx& ctx, int at, int id) {
        DcDynPumpMotor& d = pump->mMotor; motorMalf(d); pump->mMalfFailPower = m[4]; pump->mMalfPowerOverrideFlag = m[5]; pump->mMalfPowerOverrideValue = mv[5]; pump->mMalfCommandSpeedFlag = m[6]; pump->mMalfCommandSpeedValue = mv[6];
        pump->setMotorLoadTorques(torque * 0.5, torque * 0.25, torque * 0.125, torque * 0.125); const double sensed = useReal ? speed : sensedSpeed;
        if (at % 2) pump->stepWithArgs(dt, volts, sensed, temp, command, enable); else { pump->setVoltage(volts); pump->setSensedSpeed(sensed); pump->setSensedTemperature(temp); pump->setCommandSpeed(command); pump->setCommandEnable(enable); pump->step(dt); }
        const double v = m[5] ? mv[5] : volts; const bool bus = v >= c[11] && v <= c[12] && !m[4]; tripped = bus && (temp > c[9] || tripped) && !(temp < c[10]); const bool on = bus && enable && !tripped;
        same(ctx, at, id, "controller power", pump->isControllerBusPowered(), bus); same(ctx, at, id, "temperature trip", pump->isTemperatureTripped(), tripped); same(ctx, at, id, "motor power", pump->isMotorBusPowered(), on);
        double cmd = m[6] ? mv[6] : command; double e0 = err, scale = 0;
        if (on && cmd > FLT_EPSILON) {
            phase = std::fmod(phase + 2 * M_PI * c[15] * dt, 2 * M_PI); cmd += c[14] * std::sin(phase); err = cmd > FLT_EPSILON ? (cmd - sensed) / cmd : -1; pw += err * c[6]; scale = std::fabs(err) * c[6];
            if (std::fabs(err) > c[8]) { pw += c[7] * (err - e0) / std::max(std::fabs(err), 1e-4); scale += c[7] * (std::fabs(err) + std::fabs(e0)) / std::max(std::fabs(err), 1e-4); } else startup = false;
            pw = std::min(1.0, std::max(0.0, pw));
        } else { pw = err = 0; startup = true; }
        same(ctx, at, id, "pulse width", pump->getPulseWidth(), pw, 100 * scale + 1); pw = pump->getPulseWidth();
        if (on) ctx.probe("motor_on"); if (tripped) ctx.probe("tripped");
        // the motor
        const double vm = pw * v, limit = startup ? c[16] : 1e15, R = c[1] / (m[0] ? std::max(DBL_EPSILON, 1 - mv[0]) : 1.0), Kt = c[2], free = (vm - Kt * speed / RPM) / R, I = std::min(limit, std::max(0.0, free)), P = I * vm, Is = (vm + Kt * speed / RPM) / R;
        same(ctx, at, id, "current", d.getCurrent(), I, Is); same(ctx, at, id, "motor power draw", d.getPower(), P, Is * vm); ctx.check(d.getCurrent() >= 0 && d.getCurrent() <= limit && d.getPower() >= 0, fmt("motor: step %d: pump motor %d draws %.9g A, limit %.9g A", at, id, d.getCurrent(), limit));
        const double load = torque - (m[1] ? mv[1] * Kt * vm / R : 0), fric = -c[3] * std::max(speed, c[4]), s0 = speed, k = dt * RPM / c[5]; double s1 = m[2] ? mv[2] : std::max(0.0, speed + (Kt * I + load + fric) * k);
        same(ctx, at, id, "speed", d.getSpeed(), s1, s0 + (Kt * Is + std::fabs(torque) + std::fabs(load) + std::fabs(fric)) * k); s1 = d.getSpeed();
        const double useful = -load * s1 / RPM, waste = std::max(0.0, P - useful) + (m[3] ? mv[3] : 0), us = std::fabs(useful) + (std::fabs(torque) + std::fabs(load)) * s1 / RPM + Is * vm;
        same(ctx, at, id, "motor waste heat", d.getWasteHeat(), waste, us); if (!m[3]) ctx.check(d.getWasteHeat() >= 0, fmt("motor: step %d: pump motor %d gives off %.9g W", at, id, d.getWasteHeat()));
        // what the supply sees
        double G = bus ? c[13] / std::max(DBL_EPSILON, v * v) : 0; if (on) G += pw * pw / std::max(DBL_EPSILON, d.getResistance()); const double R1 = 1 / std::max(DBL_EPSILON, G);
        same(ctx, at, id, "load resistance", pump->getTotalResistance(), R1, R1 * 1e-3); same(ctx, at, id, "total waste heat", pump->getTotalWasteHeat(), (bus ? c[13] : 0) + (on ? d.getWasteHeat() : 0), 0);
        if (!m[5] && v > 0.1 && (!on || pw > 1e-6)) { const double all = (bus ? c[13] : 0) + (on ? d.getPower() : 0); ctx.check(std::fabs(pump->getTotalPower() - all) <= 1e-6 * all + 1e-6, fmt("motor: step %d: pump motor %d draws %.9g W in total, controller and motor %.9g W", at, id, pump->getTotalPower(), all)); }
        speed = s1; peak = std::max(peak, speed); ctx.log(fmt("%.9g %.9g", speed, pw));
    }
    void stepPwm(double dt, Ctx& ctx, int at, int id) {
        TsDcPwmDynMotor& d = *pwm; d.mMalfDegradeFlag = m[0]; d.mMalfDegradeValue = mv[0]; d.mMalfJamFlag = m[1]; d.mMalfJamValue = mv[1]; d.mMalfSpeedOverrideFlag = m[2]; d.mMalfSpeedOverrideValue = mv[2]; d.mMalfHeatRateBiasFlag = m[3]; d.mMalfHeatRateBiasValue = mv[3];
        const double width = enable ? std::min(1.0, std::max(0.0, command / 3000)) : 0; d.setVoltage(volts); d.setPulseWidth(width); d.setLoadTorques(torque * 0.5, torque * 0.25, torque * 0.125, torque * 0.125); d.step(dt);
        const double deg = m[0] ? 1 - mv[0] : 1, stall = (c[2] * volts + c[3] * volts * volts) * deg, drive = std::max(0.0, stall - speed / c[8]) * width, load = torque - (m[1] ? mv[1] * stall : 0), k = dt * RPM / c[7];
        same(ctx, at, id, "speed", d.getSpeed(), m[2] ? mv[2] : std::max(0.0, speed + (drive + load + c[4]) * k), speed + (stall + speed / c[8] + std::fabs(torque) + std::fabs(load) + std::fabs(c[4])) * k); speed = d.getSpeed();
        const double f = c[1] + width * (1 - c[1]), back = c[5] * speed / c[6], I = std::max(0.0, f * (volts / c[6] - back) * deg), Is = volts / c[6] + back;
        same(ctx, at, id, "current", d.getCurrent(), I, Is); same(ctx, at, id, "generated current", d.getGeneratedCurrent(), std::max(0.0, back - I), Is); same(ctx, at, id, "power", d.getPower(), d.getCurrent() * volts, 0);
        same(ctx, at, id, "resistance", d.getResistance(), d.getCurrent() > DBL_EPSILON ? volts / d.getCurrent() : 1 / DBL_EPSILON, 0);
        const double useful = -load * speed / RPM; same(ctx, at, id, "waste heat", d.getWasteHeat(), std::max(0.0, d.getPower() - useful) + (m[3] ? mv[3] : 0), std::fabs(useful) + (std::fabs(torque) + std::fabs(load)) * speed / RPM + std::fabs(d.getPower())); same(ctx, at, id, "efficiency", d.getEfficiency(), d.getPower() > 0 ? useful / d.getPower() : 0, d.getPower() > 0 ? (std::fabs(torque) + std::fabs(load)) * speed / RPM / d.getPower() : 0);
        ctx.log(fmt("%.9g %.9g", speed, d.getCurrent()));
    }
    UserLoadMode read(UserLoadMode hold, double lo, double hi) {
        const bool any = c[4] != ThermostatConfigData::AND; bool on = !any;
        for (int i = 0; i < sensors; ++i) { const double t = th->mTempSensor[i].getSensedOutput(); const bool want = t > hi ? false : t < lo ? true : hold == LoadON; if (any) on = on || want; else on = on && want; }
        return on ? LoadON : LoadOFF;
    }
    void stepThermostat(double dt, Ctx& ctx, int at, int id) {
        th->mMalfSetptLowFlag = m[7]; th->mMalfSetptLowValue = mv[7]; th->mMalfSetptHighFlag = m[8]; th->mMalfSetptHighValue = mv[8]; th->mMalfCmdOnFlag = m[9]; th->mMalfCmdOffFlag = m[10]; th->mIsKillSwitchEngaged = m[11];
        if (at % 2) th->setCommandSetptBias(bias); else th->setTemperatureSetpt(c[1] + 0.5 * c[2] + bias);
        for (int i = 0; i < sensors; ++i) { SensorAnalog& s = th->mTempSensor[i]; s.setPowerFlag(sensorPower[i]); s.setTruthInput(wall + offset[i]); s.mMalfFailStuckFlag = m[i]; s.mMalfFailToFlag = i < 2 && m[4 + i]; s.mMalfFailToValue = i ? 0 : 500; }
        th->update(dt);
        bool edge = false; double lo = c[1] + bias, hi = c[1] + c[2] + bias;
        auto near = [&] { for (int i = 0; i < sensors; ++i) { const double t = th->mTempSensor[i].getSensedOutput(); edge = edge || std::fabs(t - lo) < 1e-9 * t || std::fabs(t - hi) < 1e-9 * t; } };
        near(); const UserLoadMode was = nominal; nominal = read(was, lo, hi); UserLoadMode hold = was; if (m[7]) { hold = setpt; lo = mv[7]; } if (m[8]) { hold = setpt; hi = mv[8]; } near();
        if (edge) { nominal = th->mCommandNominal; setpt = th->mCommandSetpt; ctx.probe("setpoint_boundary"); }      // either way
        else { setpt = read(hold, lo, hi); }
        actual = m[10] ? LoadOFF : m[9] ? LoadON : m[11] ? LoadOFF : setpt;
        ctx.check(th->getCommandActual() == actual, fmt("motor: step %d: thermostat %d commands its heater %s, should %s (wall %.9g K, setpoints %.9g to %.9g K)", at, id, th->getCommandActual() == LoadON ? "on" : "off", actual == LoadON ? "on" : "off", wall, lo, hi));
        same(ctx, at, id, "bias", th->mCommandSetptBias, bias, 1000); same(ctx, at, id, "low setpoint", th->mSetptLow, lo, 1000); same(ctx, at, id, "high setpoint", th->mSetptHigh, hi, 1000);
        wall = std::min(900.0, std::max(10.0, env + (wall - env) * std::exp(-c[6] * dt) + (actual == LoadON ? c[5] * dt : 0))); ctx.log(fmt("%.9g %d", wall, actual));
    }
    void stepSmoke(double dt, Ctx& ctx, int at, int id) {
        sm->isPowered = volts > 1; sm->isBitEnabled = bit; sm->smokeLevelFactor = smoke; sm->malfTotalFail = m[4]; sm->malfPowerToOn = m[5]; sm->update(dt);
        const bool on = (volts > 1 || m[5]) && !m[4]; double obs, scat;
        if (on) { if (bit || inProc) { inProc = timer <= static_cast<float>(c[1]); obs = 104.12F; if (bit) scat = 1.42F; else { timer += static_cast<float>(dt); scat = 0.11F; } } else { timer = 0; obs = c[6] + c[7] * smoke; scat = 0.16768F + (2.47F - 0.16768F) * smoke; } } else { obs = 53.45F; scat = 0.1006F; }
        obs = std::min(static_cast<double>(104.12F), std::max(-10.0, obs)); scat = std::min(static_cast<double>(2.47F), std::max(0.0, scat));
        auto close = [&](const char* what, double got, double want, double tol) { ctx.check(std::fabs(got - want) <= tol + 1e-5 * (std::fabs(want) + 1), fmt("motor: step %d: smoke detector %d: %s is %.9g, should be %.9g", at, id, what, got, want)); };
        close("obscuration", sm->obscurationPercentage, obs, 1e-4); close("scatter", sm->scatterPercentage, scat, 1e-5); close("shown obscuration", sm->getSensedObscurationValue(), obs, 0.0101); close("shown scatter", sm->getSensedScatterValue(), scat, 0.0101);
        close("obscuration voltage", sm->obsSensedVoltage, c[2] * sm->getSensedObscurationValue() + c[3], 1e-4 * std::fabs(c[2]) + 1e-5); close("scatter voltage", sm->scatSensedVoltage, c[4] * sm->getSensedScatterValue() + c[5], 1e-5 * std::fabs(c[4]) + 1e-5);
        ctx.check((sm->isLoadOn != 0) == on, fmt("motor: step %d: smoke detector %d %s power", at, id, on ? "takes no" : "takes")); if (inProc) ctx.probe("self_test"); ctx.log(fmt("%.6g %.6g", sm->obscurationPercentage, sm->scatterPercentage));
    }
};
void run(const Plan& p, Ctx& ctx) {
    SeamGuard g; Rng r(p.seed); seams().rand = [&]() -> int { return static_cast<int>(r.u() * 2147483647.0); };
    std::vector<std::unique_ptr<Dev> > v; for (auto& o : p.ops) if (o.kind == "device") { v.emplace_back(new Dev); v.back()->build(o); }
    if (v.empty()) return; int at = 0;
    auto steps = [&](double dt) { ++at; ctx.advance(dt); for (size_t i = 0; i < v.size(); ++i) { Dev& d = *v[i]; d.step(dt, ctx, at, i); unsigned h = 0; for (bool b : d.m) h = 2 * h + b; ctx.state(fmt("%d %u %d%d%d%d%d", d.kind, h, d.enable, d.tripped, d.startup, d.inProc, d.actual)); } };
    for (auto& o : p.ops) {
        Dev& d = *v[static_cast<size_t>(std::max(0, o.i(0))) % v.size()];
        if (o.kind == "malf") d.malf(o, ctx);
        else if (o.kind == "supply") { const double x = std::max(0.0, o.d(1)); ctx.fault(x < d.volts ? "supply_drop" : "supply_rise"); d.volts = x; }
        else if (o.kind == "command") { d.command = o.d(1); d.enable = o.b(2); d.bit = o.b(3); d.bias = std::min(50.0, std::max(-50.0, o.d(4))); }
        else if (o.kind == "load") { d.torque = o.d(1); d.temp = std::max(0.0, o.d(2)); d.smoke = std::min(1.0, std::max(0.0, o.d(3))); d.env = std::min(500.0, std::max(100.0, o.d(4))); ctx.fault("load_change"); if (d.temp > 350) ctx.fault("overheating"); }
        else if (o.kind == "sensor") { d.useReal = o.b(1); d.sensedSpeed = std::max(0.0, o.d(2)); d.sensorPower[std::abs(o.i(3)) % 4] = o.b(1); ctx.fault("sensor_lost", !d.useReal); }
        else if (o.kind == "step") { const double dt = std::max(0.0, o.d(1)); if (dt == 0) ctx.fault("zero_time_step"); else if (dt > 0.5) ctx.fault("long_time_step"); for (int k = std::max(1, o.i(2)); k > 0; --k) steps(dt); }
    }
    // Every disturbance stops: motors that can must reach their command, thermostats must hold their band, detectors must be back to normal.
    for (auto& d : v) { for (bool& b : d->m) b = false; for (bool& b : d->sensorPower) b = true; d->useReal = true; d->torque = 0; d->temp = 250; d->enable = true; d->bit = false; d->smoke = 0; d->bias = 0; d->volts = d->kind == PUMP ? 0.5 * (d->c[11] + d->c[12]) : 28; if (d->kind == PUMP) { d->temp = d->c[10] - 1; const double all = d->volts * d->c[2] * RPM / (d->c[2] * d->c[2] + d->c[1] * d->c[3] * RPM); d->command = 0.5 * all; } if (d->kind == THERMOSTAT) d->env = d->c[1] - 40; }
    const double dt = 0.1; const int n = 1500; for (auto& d : v) d->peak = 0;
    for (int k = 0; k < n; ++k) {
        steps(dt);
        for (size_t i = 0; i < v.size(); ++i) {
            Dev& d = *v[i];
            if (d.kind == THERMOSTAT && k > 1000 && d.c[5] > 2 * d.c[6] * (d.c[2] + 60) && d.c[6] > 0.04) { const double slack = 5.001 + dt * (d.c[5] + d.c[6] * (d.c[2] + 60)); ctx.check(d.wall > d.c[1] - slack && d.wall < d.c[1] + d.c[2] + slack, fmt("motor: thermostat %zu lets its wall go to %.9g K, it is to keep it between %.9g and %.9g K", i, d.wall, d.c[1], d.c[1] + d.c[2])); ctx.probe("band_held"); }
            if (d.kind == SMOKE && k * dt > d.c[1] + 1) ctx.check(!d.sm->isBitInProcess, fmt("motor: smoke detector %zu still tests itself", i));
        }
    }
    for (size_t i = 0; i < v.size(); ++i) {
        Dev& d = *v[i]; if (d.kind != PUMP) continue;
        const double Kt = d.c[2], rate = RPM / d.c[5] * (Kt * Kt / d.c[1] / RPM + d.c[3]), torqueAt = d.c[3] * std::max(d.command, d.c[4]);
        if (rate * dt > 0.3 || rate * dt < 0.005 || d.c[6] < 0.05 || d.c[6] > 0.5 || d.c[7] > d.c[6] || d.c[14] > 0.1 * d.command || d.c[8] > 0.1 || std::min(d.c[16], 0.2 * d.volts / d.c[1]) * Kt < 1.5 * torqueAt || (std::min(d.c[16], 0.2 * d.volts / d.c[1]) * Kt - torqueAt) * RPM / d.c[5] * n * dt < 5 * d.command || d.command < 1) continue;
        ctx.probe("spun_up"); ctx.check(d.peak >= 0.9 * d.command, fmt("motor: %d steps after the last fault pump motor %zu got to %.6g rpm at most, told to run at %.6g rpm", n, i, d.peak, d.command));
    }
}
void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(1, deep ? 4 : 3), steps = r.irange(5, deep ? 150 : 60);
    for (int i = 0; i < n; ++i) {
        const int kind = r.irange(0, KINDS - 1); const double k = kind;
        if (kind == PUMP) { const double R = r.logRange(0.2, 10), Kt = r.logRange(0.01, 0.5), reset = r.range(280, 350); p.add("device", {k, R, Kt, r.chance(0.3) ? 0.0 : r.logRange(1e-7, 1e-5), r.chance(0.5) ? 0.0 : r.range(0, 500), r.logRange(0.3, 20) * Kt * Kt / R, r.chance(0.7) ? r.range(0.05, 0.5) : r.u(), r.range(0, 0.2), r.logRange(0.005, 0.1), reset + r.range(5, 60), reset, r.range(0, 100), r.range(101, 200), r.logRange(0.1, 50), r.chance(0.5) ? 0 : r.range(0, 50), r.logRange(0.01, 2), r.chance(0.5) ? 1e15 : r.logRange(0.5, 50)}); }
        else if (kind == PWM) p.add("device", {k, r.u() * 0.3, r.logRange(1e-3, 0.1), r.chance(0.5) ? 0 : r.logRange(1e-5, 1e-3), r.chance(0.5) ? 0 : r.logRange(1e-3, 0.1), r.logRange(1e-4, 0.05), r.logRange(0.1, 20), r.logRange(1e-4, 1), r.logRange(100, 1e5)});
        else if (kind == THERMOSTAT) { const double lo = r.range(200, 350); p.add("device", {k, lo, r.logRange(0.5, 30), (double)r.irange(0, 3), (double)r.irange(0, 1), r.logRange(0.05, 5), r.logRange(1e-3, 0.2), lo + r.range(-60, 60), r.chance(0.5) ? 0 : r.range(-5, 5), r.range(-5, 5), r.range(-5, 5), r.range(-5, 5)}); }
        else p.add("device", {k, r.logRange(0.1, 5), r.range(-0.2, 0.2), r.range(-5, 5), r.range(-3, 3), r.range(-1, 1), r.range(-5, 30), r.range(0, 80)});
    }
    for (int i = 0; i < n; ++i) if (r.chance(0.85)) { p.add("supply", {(double)i, r.range(50, 150)}); p.add("command", {(double)i, r.range(100, 3000), 1, 0, 0}); }
    for (int s = 0; s < steps; ++s) {
        while (r.chance(0.2)) p.add("malf", {(double)r.irange(0, n - 1), (double)r.irange(0, 11), (double)r.chance(0.45), r.range(-1, 1.5)});
        if (r.chance(0.15)) p.add("supply", {(double)r.irange(0, n - 1), r.chance(0.3) ? 0.0 : r.range(0, 220)});
        if (r.chance(0.2)) p.add("command", {(double)r.irange(0, n - 1), r.chance(0.2) ? 0.0 : r.range(-100, 4000), (double)r.chance(0.8), (double)r.chance(0.4), r.chance(0.5) ? 0 : r.range(-30, 30)});
        if (r.chance(0.2)) p.add("load", {(double)r.irange(0, n - 1), -r.chance(0.7) * r.logRange(1e-4, 1), r.range(250, 420), r.chance(0.5) ? 0 : r.u(), r.range(150, 400)});
        if (r.chance(0.06)) p.add("sensor", {(double)r.irange(0, n - 1), (double)r.chance(0.6), r.range(0, 4000), (double)r.irange(0, 3)});
        p.add("step", {0, r.chance(0.05) ? 0.0 : r.chance(0.05) ? r.range(0.5, 5) : 0.1, (double)(r.chance(0.7) ? 1 : r.irange(2, 40))});
    }
}
Register c03({"C03", "distinct = different devices, supply, command or fault history; trivial = no step is taken", "kind of device, set of active malfunctions, enabled, tripped, starting, self test, heater command", {
    Scenario{"motors", 1, gen, run}}, 4000, 200000,
    {"TsPumpMotorController", "DcDynPumpMotor", "TsDcPwmDynMotor", "Thermostat", "HtrControl", "SensorAnalog", "TsOpticSmokeDetector", "TsNoise"}, {"the heated wall and the motor loads are the harness's; rand"},
    {"Speed control is judged for stability only where gains and motor time constant allow it", "The total power of a controller whose supply is overridden by malfunction is not judged"}});
} // namespace
} // namespace dst
