// C01: sensors. Power loss, malfunctions, noise and odd time steps in any order; a reference model says what each must show.
#include "common.hh"
#include "seams.hh"
#include "gunns-ts-models/common/sensors/SensorAnalog.hh"
#include "gunns-ts-models/common/sensors/SensorBooleanAi.hh"
#include "gunns-ts-models/common/sensors/SensorVlvOpenClose.hh"
#include "gunns-ts-models/common/sensors/TsFanSpeedSensors.hh"
#include "gunns-ts-models/common/sensors/TsLimitSwitchAnalog.hh"
#include "gunns-ts-models/common/sensors/TsNoise.hh"
#include <cfloat>
#include <memory>
namespace dst {
namespace {
double noiseNow = 0; long noiseDraws = 0;
double noiseSource() { ++noiseDraws; return noiseNow; }
struct Conv { UnitConversion::Type t; double a, b; };          // output = a * input + b
const Conv convs[] = {{UnitConversion::NO_CONVERSION, 1, 0}, {UnitConversion::UNIT_TO_MILLI, 1e3, 0}, {UnitConversion::UNIT_TO_KILO, 1e-3, 0}, {UnitConversion::FRAC_TO_PERCENT, 100, 0}, {UnitConversion::UNIT_PER_SEC_TO_UNIT_PER_HOUR, 3600, 0},
    {UnitConversion::K_TO_C, 1, -273.15}, {UnitConversion::C_TO_K, 1, 273.15}, {UnitConversion::C_TO_F, 1.8, 32}, {UnitConversion::K_TO_F, 1.8, -459.67}, {UnitConversion::F_TO_R, 1, 459.67}, {UnitConversion::RAD_TO_DEG, 57.29577951308232, 0}};
const int NCONV = sizeof convs / sizeof *convs;
const char* flags[] = {"fail_off", "fail_to", "stuck", "ignore_power", "perfect", "scale", "bias", "drift", "noise", "resolution"};
struct Malf { bool f[10]; double failTo, scale, bias, rate, nScale, nMult, res; Malf() : failTo(0), scale(1), bias(0), rate(0), nScale(0), nMult(0), res(0) { for (bool& x : f) x = false; } };

/// What an analog sensor must show.
struct RefAnalog {
    double lo, hi, off, bias, scale, nScale, nMult, res; bool noisy; Conv conv; Malf m; bool power; double truth, drift, driftErr, out, err, step; bool any;   // step: a rounding to resolution could go either way by this much
    RefAnalog() : power(false), truth(0), drift(0), driftErr(0), out(0), err(0), step(0), any(false) {}
    double in() const { return conv.a * (std::fabs(truth) < FLT_MIN ? 0.0 : truth) + conv.b; }
    void update(double dt, double noise) {
        const double eps = 2.4e-7;
        bool held = false; step = any ? step : 0;
        if (m.f[4]) { out = in(); err = eps * (std::fabs(conv.a * truth) + std::fabs(conv.b)); step = 0; }
        else if (!((power || m.f[3]) && !m.f[0])) { out = off; err = step = 0; }
        else if (m.f[1]) { out = m.failTo; err = step = 0; }
        else if (m.f[2]) held = true;
        else {
            double x = in(), e = eps * (std::fabs(conv.a * truth) + std::fabs(conv.b));
            for (double k : {scale, m.f[5] ? m.scale : 1.0}) { x *= k; e = e * std::fabs(k) + eps * std::fabs(x); }
            x += bias + (m.f[6] ? m.bias : 0); e += eps * (std::fabs(x) + std::fabs(bias) + (m.f[6] ? std::fabs(m.bias) : 0));
            if (m.f[7]) { drift += m.rate * dt; driftErr += eps * (std::fabs(drift) + std::fabs(m.rate * dt)); x += drift; e += driftErr + eps * std::fabs(x); } else drift = driftErr = 0;
            if (noisy) {
                const double s = m.f[8] ? m.nScale : nScale, k = (m.f[8] ? m.nMult : nMult) * std::fabs(x - off);
                e += e * std::fabs(m.f[8] ? m.nMult : nMult) + 2 * FLT_EPSILON;      // amplitudes below FLT_EPSILON are left out
                x += noise * k; x += noise * s; e += eps * (std::fabs(k) + std::fabs(s) + std::fabs(x));
            }
            step = 0; const double r = std::fabs(m.f[9] ? m.res : res);
            if (r > 2 * FLT_EPSILON) { const double q = x / r, near = std::round(q); e += eps * std::fabs(x); if (0.5 - std::fabs(q - near) < e / r + eps * std::fabs(q) + 1e-6) step = r; x = r * near; e = eps * std::fabs(x) * 2; }
            else if (r > 0) e += 2 * r;
            out = x; err = e;
        }
        if (!held) { if (out > hi) { out = hi; if (step == 0) err = std::min(err, eps * std::fabs(hi) + err); } if (out < lo) out = lo; }
        any = true;
    }
    bool degraded() const { if (m.f[4]) return false; for (int i : {0, 1, 2, 5, 6, 7, 8, 9}) if (m.f[i]) return true; return false; }
};
struct RefBool { bool off, failTo, out; Malf m; bool power, unsure; RefBool() : off(false), failTo(false), out(false), power(false), unsure(false) {}
    void update(bool truth, bool close) {
        if (m.f[4]) { out = truth; unsure = close; } else if (!((power || m.f[3]) && !m.f[0])) { out = off; unsure = false; } else if (m.f[1]) { out = failTo; unsure = false; } else if (!m.f[2]) { out = truth; unsure = close; }
    }
    bool degraded() const { return !m.f[4] && (m.f[0] || m.f[1] || m.f[2]); } };
void setMalf(SensorBase& s, const Malf& m) { s.mMalfFailOffFlag = m.f[0]; s.mMalfFailToFlag = m.f[1]; s.mMalfFailStuckFlag = m.f[2]; s.mMalfIgnorePower = m.f[3]; s.mMalfPerfectSensor = m.f[4]; }
void setMalf(SensorAnalog& s, const Malf& m) {
    setMalf(static_cast<SensorBase&>(s), m);
    s.mMalfFailToValue = m.failTo; s.mMalfScaleFlag = m.f[5]; s.mMalfScaleValue = m.scale; s.mMalfBiasFlag = m.f[6]; s.mMalfBiasValue = m.bias; s.mMalfDriftFlag = m.f[7]; s.mMalfDriftRate = m.rate;
    s.mMalfNoiseFlag = m.f[8]; s.mMalfNoiseScale = m.nScale; s.mMalfNoiseMultiplier = m.nMult; s.mMalfResolutionFlag = m.f[9]; s.mMalfResolutionValue = m.res;
}
double f32(double x) { return static_cast<double>(static_cast<float>(x)); }
SensorAnalogConfigData analogConfig(const Op& o, RefAnalog& r) {
    r.lo = f32(o.d(1)); r.hi = f32(std::max(o.d(2), o.d(1) + 1e-3 + 1e-3 * std::fabs(o.d(1)))); r.off = std::min(std::max(f32(o.d(3)), r.lo), r.hi);
    r.bias = f32(o.d(4)); r.scale = f32(o.d(5)); r.nScale = f32(o.d(6)); r.nMult = f32(o.d(7)); r.res = f32(o.d(8)); r.noisy = o.b(9); r.conv = convs[std::abs(o.i(10)) % NCONV];
    SensorAnalogConfigData c(r.lo, r.hi, r.off, r.bias, r.scale, r.nScale, r.res, r.noisy ? noiseSource : 0, r.conv.t, r.nMult);
    SensorAnalogConfigData copy(c), assigned; assigned = copy; return assigned;      // the form in which a network holds it
}
/// One instance of any of the kinds, with its reference.
struct Dev {
    int kind; std::vector<RefAnalog> ra; std::vector<RefBool> rb; double target, tol, target2, tol2;
    std::unique_ptr<SensorAnalog> an; std::unique_ptr<SensorBooleanBi> bi; std::unique_ptr<SensorBooleanAi> ai; std::unique_ptr<SensorVlvOpenClose> vl; std::unique_ptr<TsFanSpeedSensors> fan; std::unique_ptr<TsLimitSwitch> sw; std::unique_ptr<TsLimitSwitchAnalog> swa;
    double truth; bool power, failed; bool inits;
    Dev() : kind(0), target(0), tol(0), target2(0), tol2(0), truth(0), power(false), failed(false), inits(true) {}
    size_t parts() const { return kind == 0 ? 1 : kind == 4 ? 3 : rb.size(); }
    static bool in(double x, double target, double tol) { return std::fabs(x - target) <= tol; }
    static bool close(double x, double target, double tol) { return std::fabs(std::fabs(x - target) - tol) <= 1e-6 * (std::fabs(x) + std::fabs(target) + tol) + 1e-30; }
    bool limit() const { return in(truth, target, tol) || (target > 0 && truth > target) || (target < 0 && truth < target); }
    void refs(double dt) {
        if (kind == 0 || kind == 4) for (auto& r : ra) { r.power = power; r.truth = truth; r.update(dt, noiseNow); }
        else if (kind == 1) { rb[0].power = power; rb[0].update(truth > 0, false); }
        else if (kind <= 3) for (size_t k = 0; k < rb.size(); ++k) { rb[k].power = power; const double t = k ? target2 : target, l = k ? tol2 : tol; rb[k].update(in(f32(truth), t, l), close(truth, t, l)); }
    }
    void build(const Op& o, bool pw, double tr) {
        kind = std::abs(o.i(0)) % 7; power = pw; truth = tr;
        if (kind == 0) { ra.resize(1); an.reset(new SensorAnalog); const SensorAnalogConfigData c = analogConfig(o, ra[0]); SensorAnalogInputData i(pw, tr), j(i); an->initialize(c, j, "sensor"); }
        else if (kind == 4) { ra.resize(3); const SensorAnalogConfigData c = analogConfig(o, ra[0]); ra[1] = ra[2] = ra[0]; TsFanSpeedSensorsConfigData fc(c); TsFanSpeedSensorsInputData fi; fi.mSensorA = fi.mSensorB = fi.mSensorC = SensorAnalogInputData(pw, tr); fan.reset(new TsFanSpeedSensors); fan->initialize(fc, fi, "fan"); }
        else if (kind <= 3) {
            rb.resize(kind == 3 ? 2 : 1); target = f32(o.d(1)); tol = f32(std::fabs(o.d(2))); target2 = f32(o.d(3)); tol2 = f32(std::fabs(o.d(4))); rb[0].off = o.b(9); if (kind == 3) rb[1].off = o.b(8);
            if (kind == 1) { bi.reset(new SensorBooleanBi); bi->initialize(SensorBooleanBiConfigData(rb[0].off), SensorBooleanBiInputData(pw, tr > 0), "sensor"); }
            else if (kind == 2) { ai.reset(new SensorBooleanAi); SensorBooleanAiConfigData c(rb[0].off, target, tol), d; d = c; ai->initialize(d, SensorBooleanAiInputData(pw, false, tr), "sensor"); }
            else { vl.reset(new SensorVlvOpenClose); SensorVlvOpenCloseInputData in(pw); in.mOpen.mTruthInputAnalog = in.mClose.mTruthInputAnalog = tr; vl->initialize(SensorVlvOpenCloseConfigData(SensorBooleanAiConfigData(rb[0].off, target, tol), SensorBooleanAiConfigData(rb[1].off, target2, tol2)), in, "valve"); }
        } else {
            rb.resize(1); target = o.d(1); tol = std::max(std::fabs(o.d(2)), 1e-3); rb[0].off = o.b(9); rb[0].failTo = o.b(8); truth = tr;
            if (kind == 5) { sw.reset(new TsLimitSwitch); TsLimitSwitchConfigData c; c.mNotPoweredValue = rb[0].off; sw->initialize(c, TsLimitSwitchInputData(false, false, rb[0].failTo)); }
            else { swa.reset(new TsLimitSwitchAnalog); TsLimitSwitchAnalogConfigData c; c.mNotPoweredValue = rb[0].off; c.mTargetValue = target; c.mTolerance = tol; swa->initialize(c, TsLimitSwitchAnalogInputData(false, false, rb[0].failTo)); }
        }
        refs(0);
    }
    SensorAnalog* analog(int k) { return kind == 0 ? an.get() : k == 0 ? &fan->mSensorA : k == 1 ? &fan->mSensorB : &fan->mSensorC; }
    SensorBooleanBi* boolean(int k) { return kind == 1 ? bi.get() : kind == 2 ? ai.get() : k == 0 ? &vl->mOpen : &vl->mClose; }
    void malf(const Op& o, Ctx& ctx) {
        const int w = std::abs(o.i(1)) % 10; const bool on = o.b(2); const double v = f32(o.d(3)), v2 = f32(o.d(4));
        if (kind >= 5) { failed = on; ctx.fault("switch_failed"); return; }
        const int k = std::abs(o.i(5)) % static_cast<int>(parts());
        if (!ra.empty()) { Malf& m = ra[k].m; m.f[w] = on; if (w == 1) m.failTo = v; if (w == 5) m.scale = v; if (w == 6) m.bias = v; if (w == 7) m.rate = v; if (w == 8) { m.nScale = v; m.nMult = v2; } if (w == 9) m.res = v; setMalf(*analog(k), m); }
        else { rb[k].m.f[w] = on; if (w == 1) { rb[k].failTo = v > 0; boolean(k)->mMalfFailToValue = rb[k].failTo; } setMalf(*boolean(k), rb[k].m); }
        ctx.fault(std::string("malf_") + flags[w], on);
    }
    void step(double dt, int how) {
        refs(dt);
        if (kind == 0) { if (how) an->sense(dt, power, truth); else { an->setPowerFlag(power); an->setTruthInput(truth); an->update(dt); } }
        else if (kind == 1) { if (how) bi->sense(dt, power, truth > 0); else { bi->setPowerFlag(power); bi->setTruthInput(truth > 0); bi->update(dt); } }
        else if (kind == 2) { if (how) ai->sense(dt, power, truth); else { ai->setPowerFlag(power); ai->setTruthInput(truth); ai->update(dt); } }
        else if (kind == 3) vl->sense(dt, power, truth);
        else if (kind == 4) fan->sense(dt, power, truth);
        else if (kind == 5) sw->update(truth > 0, power, failed);
        else swa->update(truth, power, failed);
    }
    void judge(Ctx& ctx, int at, int id) {
        if (kind >= 5) {
            const bool t = kind == 5 ? truth > 0 : limit(), want = failed ? rb[0].failTo : !power ? rb[0].off : t, got = kind == 5 ? sw->getValue() : swa->getValue();
            if (kind == 6 && close(truth, target, tol)) return;
            ctx.check(got == want, fmt("sensor: step %d: limit switch %d shows %d, it is %s and %s and should show %d", at, id, got, failed ? "failed" : "sound", power ? "powered" : "off", want)); return;
        }
        double sum = 0, sumErr = 0;
        for (size_t k = 0; k < ra.size(); ++k) {
            RefAnalog& r = ra[k]; SensorAnalog* s = analog(k); const double got = s->getSensedOutput(), tol = r.err + 3e-7 * std::fabs(r.out) + 1e-30;
            sum += got; sumErr += std::fabs(got);
            ctx.check(got >= r.lo - 1e-6 * std::fabs(r.lo) && got <= r.hi + 1e-6 * std::fabs(r.hi), fmt("sensor: step %d: sensor %d.%zu shows %.9g, its range is %.9g to %.9g", at, id, k, got, r.lo, r.hi));
            ctx.check(std::fabs(got - r.out) <= tol + 1.0001 * r.step, fmt("sensor: step %d: sensor %d.%zu shows %.9g, should show %.9g (%s, truth %.9g)", at, id, k, got, r.out, r.power ? "powered" : "not powered", r.truth));
            if (r.step > 0) ctx.probe("resolution_boundary");
            ctx.log(fmt("%.9g", got)); r.out = got; if (r.m.f[2]) { r.err = 0; r.step = 0; }
            const double to = r.conv.a * r.truth + r.conv.b; ctx.check(std::fabs(s->getTruthOutput() - to) <= 1e-6 * (std::fabs(r.conv.a * r.truth) + std::fabs(r.conv.b)) + 1e-300, fmt("sensor: step %d: sensor %d.%zu gives the truth as %.9g, it is %.9g", at, id, k, s->getTruthOutput(), to));
            ctx.check(s->mDegradedFlag == r.degraded(), fmt("sensor: step %d: sensor %d.%zu is %s degraded", at, id, k, r.degraded() ? "not shown" : "shown"));
        }
        if (kind == 4) ctx.check(std::fabs(fan->mAverageSpeed - sum / 3) <= 1e-6 * sumErr + 1e-30, fmt("sensor: step %d: fan sensors %d average to %.9g, not to %.9g", at, id, fan->mAverageSpeed, sum / 3));
        for (size_t k = 0; k < rb.size(); ++k) {
            RefBool& r = rb[k]; const bool got = kind == 3 ? (k ? vl->isClosed() : vl->isOpen()) : boolean(k)->getSensedOutput();
            if (r.unsure) { r.out = got; r.unsure = false; ctx.probe("limit_boundary"); continue; }
            ctx.check(got == r.out, fmt("sensor: step %d: switch %d.%zu shows %d, should show %d (%s, truth %.9g)", at, id, k, got, r.out, r.power ? "powered" : "not powered", truth));
            ctx.check(boolean(k)->mDegradedFlag == r.degraded(), fmt("sensor: step %d: switch %d.%zu is %s degraded", at, id, k, r.degraded() ? "not shown" : "shown"));
        }
    }
};
void run(const Plan& p, Ctx& ctx) {
    noiseNow = p.get("noise0", 0); noiseDraws = 0; std::vector<std::unique_ptr<Dev> > v;
    for (auto& o : p.ops) if (o.kind == "sensor") { v.emplace_back(new Dev); v.back()->build(o, o.b(11), o.d(12)); if (v.back()->kind < 5) v.back()->judge(ctx, 0, v.size() - 1); }
    if (v.empty()) return; int at = 0;
    for (auto& o : p.ops) {
        Dev& d = *v[static_cast<size_t>(std::max(0, o.i(0))) % v.size()];
        if (o.kind == "power") { d.power = o.b(1); ctx.fault(d.power ? "power_restored" : "power_lost"); }
        else if (o.kind == "malf") d.malf(o, ctx);
        else if (o.kind == "truth") d.truth = o.d(1);
        else if (o.kind == "step") {
            ++at; noiseNow = std::min(1.0, std::max(-1.0, o.d(2))); const double dt = std::max(0.0, o.d(1)); ctx.advance(dt); if (dt == 0) ctx.fault("zero_time_step"); else if (dt > 1) ctx.fault("long_time_step");
            for (size_t i = 0; i < v.size(); ++i) { v[i]->step(dt, o.i(3) % 2); v[i]->judge(ctx, at, i); ctx.state(fmt("%d%d%d%llx", v[i]->kind, v[i]->power, v[i]->failed, [&] { unsigned long long h = 0; for (auto& r : v[i]->ra) for (bool b : r.m.f) h = 2 * h + b; for (auto& r : v[i]->rb) for (bool b : r.m.f) h = 2 * h + b; return h; }())); }
            ctx.log(fmt("%d %ld", at, noiseDraws));
        }
    }
}
double value(Rng& r) { const double u = r.u(); return u < 0.05 ? 0.0 : u < 0.1 ? r.range(-1, 1) * 1e-39 : r.chance(0.3) ? -r.logRange(0.01, 3000) : r.logRange(0.01, 3000); }
void gen(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(1, deep ? 5 : 3), steps = r.irange(5, deep ? 200 : 60); p.set("noise0", r.range(-1, 1)); std::vector<double> center;
    for (int i = 0; i < n; ++i) {
        const int kind = r.chance(0.5) ? 0 : r.irange(0, 6); const double mid = value(r), span = r.logRange(0.1, 5000); center.push_back(mid);
        if (kind == 0 || kind == 4) p.add("sensor", {(double)kind, mid - span, mid + span, mid + span * r.range(-1, 1), r.chance(0.5) ? 0 : value(r) * 0.1, r.chance(0.6) ? 1 : r.range(-2, 3), r.chance(0.4) ? r.logRange(1e-3, 10) : 0, r.chance(0.3) ? r.logRange(1e-3, 1) : 0, r.chance(0.3) ? r.logRange(1e-3, 10) : 0, (double)r.chance(0.6), r.chance(0.5) ? 0.0 : (double)r.irange(0, NCONV - 1), (double)r.chance(0.8), mid});
        else p.add("sensor", {(double)kind, mid, r.logRange(1e-3, 10), mid + r.range(-20, 20), r.logRange(1e-3, 10), 0, 0, 0, (double)r.chance(0.5), (double)r.chance(0.5), 0, (double)r.chance(0.8), mid});
    }
    for (int s = 0; s < steps; ++s) {
        while (r.chance(0.35)) { const int w = r.irange(0, 9); p.add("malf", {(double)r.irange(0, n - 1), (double)w, (double)r.chance(w < 5 ? 0.35 : 0.6), w == 7 ? r.range(-5, 5) : w == 5 ? r.range(-2, 3) : value(r), r.logRange(1e-3, 1), (double)r.irange(0, 2)}); }
        if (r.chance(0.12)) p.add("power", {(double)r.irange(0, n - 1), (double)r.chance(0.7)});
        if (r.chance(0.04)) {      // a malfunction cleared for one (possibly empty) step and set again
            const double i = r.irange(0, n - 1), w = r.chance(0.5) ? 7 : r.irange(0, 9), x = r.range(-5, 5), y = r.logRange(1e-3, 1), z = r.irange(0, 2);
            for (int on = 1; on >= 0; --on) { p.add("malf", {i, w, (double)on, x, y, z}); p.add("step", {0, on ? 0.1 : r.chance(0.5) ? 0.0 : 0.1, r.range(-1, 1), (double)r.irange(0, 1)}); }
            p.add("malf", {i, w, 1, x, y, z});
        }
        if (r.chance(0.5)) { const int k = r.irange(0, n - 1); p.add("truth", {(double)k, r.chance(0.3) ? value(r) : center[k] + r.range(-1, 1) * r.logRange(1e-3, 100)}); }
        p.add("step", {0, r.chance(0.05) ? 0.0 : r.chance(0.05) ? r.range(1, 100) : 0.1, r.chance(0.1) ? (double)r.irange(-1, 1) : r.range(-1, 1), (double)r.irange(0, 1)});
    }
}
// The noise generator: its source of random numbers is ours, and may be stuck or hostile.
void runNoise(const Plan& p, Ctx& ctx) {
    Rng r(p.seed); int i = 0;
    for (auto& o : p.ops) {
        if (o.kind != "draw") continue;
        const int mode = std::abs(o.i(0)) % 6; const int fix = o.i(1); SeamGuard g; long draws = 0;
        seams().rand = [&]() -> int { ++draws; switch (mode) { case 0: return static_cast<int>(r.u() * 2147483647.0); case 1: return 0; case 2: return 2147483647; case 3: return fix & 0x7fffffff; case 4: return draws % 2 ? 2147483647 : 0; default: return draws % 2 ? 0 : static_cast<int>(r.u() * 2147483647.0); } };
        if (mode) ctx.fault("random_source_degenerate");
        for (int k = 0; k < std::max(1, o.i(2)); ++k, ++i) {
            const long before = draws; const double x = TsNoise::getNoise();
            ctx.check(std::isfinite(x) && x >= -1 && x <= 1, fmt("noise: value %d is %.9g", i, x));
            ctx.check(draws - before <= 1000, fmt("noise: value %d took %ld random numbers", i, draws - before));
            if (mode && x == 0) ctx.probe("noise_gave_up");
        }
        ctx.log(fmt("%d %ld", mode, draws)); ctx.state(fmt("%d", mode));
        seams().rand = nullptr;
        if (o.b(3)) { TsNoise::initialize(fix); double a[5]; for (double& x : a) x = TsNoise::getNoise(); TsNoise::initialize(fix); for (double x : a) ctx.check(TsNoise::getNoise() == x, "noise: the same seed gives other values"); }
    }
}
void genNoise(Rng& r, Plan& p, bool deep) { for (int i = r.irange(1, deep ? 20 : 6); i > 0; --i) p.add("draw", {(double)(r.chance(0.5) ? 0 : r.irange(1, 5)), (double)r.irange(0, 2147483647), (double)r.irange(1, 30), (double)r.chance(0.2)}); }
Register c01({"C01", "distinct = different sensors, malfunction, power, truth or noise history; trivial = no step is taken", "kind of sensor, power and set of active malfunctions", {
    Scenario{"sensors", 9, gen, run}, Scenario{"noise", 1, genNoise, runNoise}}, 20000, 1000000,
    {"SensorAnalog", "SensorBooleanBi", "SensorBooleanAi", "SensorVlvOpenClose", "TsFanSpeedSensors", "TsLimitSwitch", "TsLimitSwitchAnalog", "TsNoise", "UnitConversion"}, {"the sensors' noise function is the plan's", "rand() under the noise generator is the plan's"},
    {"One noise value per step and sensor bank", "Unit conversions that are linear"}});
} // namespace
} // namespace dst
