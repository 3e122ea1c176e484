// O01: Monte Carlo optimization as a master with many slaves: particle swarm and gradient descent masters hand out runs, simulated
// slaves finish in any order, results may come twice, files may not open, and a stopped swarm is restarted from its state file, which
// may be torn. Every run handed out, every best state and every history row is compared with what the slaves really returned.
#include "common.hh"
#include "seams.hh"
#include "disk.hh"
#include "core/optimization/GunnsOptimMonteCarlo.hh"
#include "core/optimization/GunnsOptimParticleSwarm.hh"
#include "core/optimization/GunnsOptimGradientDescent.hh"
#include "core/GunnsInfraFunctions.hh"
#include <memory>
#include <sstream>
namespace dst {
namespace {
typedef std::vector<double> V;
struct McGuard { ~McGuard() { GunnsInfraFunctions::mMcIsSlave = false; GunnsInfraFunctions::mMcRead.clear(); GunnsInfraFunctions::mMcWrite.clear(); } };
struct Result { double cost, id; };
// problem: 0 number of variables, 1 model steps, 2 target rows, 3 weight of the trajectory, 4 weight of the scalar, 5 scalar target, then per variable min, range, optimum
struct World {
    V c, lo, hi, opt, drv, tgt; int n, steps; double wt, ws, st; V x; Ctx& ctx;
    World(const Op& o, uint64_t seed, Ctx& k) : n(std::min(4, std::max(1, o.i(0)))), steps(std::min(12, std::max(0, o.i(1)))), wt(o.d(3)), ws(o.d(4)), st(o.d(5)), x(n), ctx(k) {
        for (int i = 0; i < n; ++i) { lo.push_back(o.d(6 + 3 * i)); hi.push_back(lo[i] + std::max(1e-3, o.d(7 + 3 * i))); opt.push_back(o.d(8 + 3 * i)); }
        Rng r(seed ^ 77); const int rows = std::min(12, std::max(1, o.i(2))); for (int i = 0; i < rows; ++i) { drv.push_back(r.range(-2, 2)); tgt.push_back(r.range(-3, 3)); }
    }
    // One slave run: a fresh process that has the run's input values and id.
    Result slave(const V& in, double id, int at) {
        V own = in; double out0 = 0, out1 = 0, drive = 0.5, want = 0; GunnsInfraFunctions::mMcIsSlave = true; GunnsInfraFunctions::mMcSlaveId = 3; GunnsInfraFunctions::mMcWrite.clear();
        GunnsOptimMonteCarlo s("slave"); s.addInput("x", &own[0], 0, 1); s.addOutput("path", &out0, 0, wt); s.addOutput("fit", &out1, st, ws); s.addDriver(&drive);
        for (size_t i = 0; i < drv.size(); ++i) { s.addDriverDataRow(fmt("%zu,%.17g", i, drv[i])); s.addOutputDataRow(fmt("%zu,%.17g", i, tgt[i])); }
        s.initSlave(); s.mRunId = id; s.updateSlavePre(); double myDrive = 0.5;
        for (int t = 0; t < steps; ++t) {
            s.updateSlaveInputs(); if (t < (int)drv.size()) myDrive = drv[t];
            ctx.check(drive == myDrive, fmt("optimizer: run %g step %d: model driver is %.9g, its trajectory says %.9g", id, t, drive, myDrive));
            out0 = own[0] * drive + own[n - 1]; out1 = 0; for (int j = 0; j < n; ++j) out1 += (own[j] - opt[j]) * (own[j] - opt[j]) / ((hi[j] - lo[j]) * (hi[j] - lo[j]));
            if (t < (int)tgt.size()) want += wt * (out0 - tgt[t]) * wt * (out0 - tgt[t]);
            s.updateSlaveOutputs();
        }
        s.updateSlavePost(); want += ws * (out1 - st) * ws * (out1 - st); GunnsInfraFunctions::mMcIsSlave = false;
        const V w = GunnsInfraFunctions::mMcWrite; ctx.check(w.size() == 2 && w[1] == id, fmt("optimizer: step %d: the slave of run %g does not report its cost and run", at, id));
        ctx.check(std::fabs(w[0] - want) <= 1e-9 * want + 1e-12, fmt("optimizer: run %g: the slave reports cost %.12g, its weighted squared errors add up to %.12g", id, w[0], want)); ctx.advance(0.1 * steps);
        return Result{w[0], w[1]};
    }
    void inputs(GunnsOptimMonteCarlo& m) { GunnsInfraFunctions::mMcIsSlave = false; for (int i = 0; i < n; ++i) m.addInput(fmt("x%d", i), &x[i], lo[i], hi[i]); }
    void inside(const V& s, const char* what, int id) { for (int i = 0; i < n; ++i) { const double t = 1e-5 * std::max(std::fabs(lo[i]), std::fabs(hi[i])); ctx.check(s[i] >= lo[i] - t && s[i] <= hi[i] + t, fmt("optimizer: %s %d: variable %d is %.9g, allowed are %.9g to %.9g", what, id, i, s[i], lo[i], hi[i])); } }
    void deliver(GunnsOptimMonteCarlo& m, const Result& r) { GunnsInfraFunctions::mMcRead = V{r.id, r.cost}; m.updateMasterPost(); ctx.check(GunnsInfraFunctions::mMcRead.empty(), fmt("optimizer: the master does not read the whole result of run %g", r.id)); }
};
V cells(const std::string& line, char sep) { V v; std::string s; std::istringstream in(line); while (std::getline(in, s, sep)) if (!s.empty()) v.push_back(atof(s.c_str())); return v; }
std::vector<std::string> lines(const std::string& path) { std::vector<std::string> v; std::string s; std::istringstream in(slurp(path)); while (std::getline(in, s)) v.push_back(s); return v; }
bool near6(double a, double b) { return a == b || std::fabs(a - b) <= 1e-5 * std::max(std::fabs(a), std::fabs(b)); }
struct Job { const Plan& p; Ctx& ctx; Rng r; World w; double dup, early, openFail; bool failed;
    Job(const Plan& p_, Ctx& c) : p(p_), ctx(c), r(p_.seed ^ 4711), w(p_.ops.at(0), p_.seed, c), dup(0), early(0), openFail(0), failed(false) {}
    // Results come back in any order before the epoch ends, some of them while it still goes on, some of them twice.
    void someBack(GunnsOptimMonteCarlo& m, std::vector<Result>& out, V& costs, int base, bool all) {
        size_t last = 0; bool first = true;
        while (!out.empty() && (all || r.chance(early))) {
            const size_t k = static_cast<size_t>(r.irange(0, out.size() - 1)); const Result q = out[k]; out.erase(out.begin() + k); if (!first && k < last) ctx.fault("result_reordered"); if (k) ctx.fault("result_overtakes"); last = k; first = false;
            w.deliver(m, q); costs.at(static_cast<size_t>(q.id) - base) = q.cost; if (r.chance(dup)) { w.deliver(m, q); ctx.fault("result_duplicated"); }
        }
    }
    // Files that cannot be opened must not go unnoticed. Returns false when the master ended.
    template <class F> bool guarded(F f) {
        failed = false; std::string err; try { f(); } catch (std::runtime_error& e) { err = e.what(); }
        ctx.check(failed == !err.empty(), failed ? std::string("optimizer: a file that cannot be opened goes unnoticed") : "optimizer: ends with " + err); return err.empty();
    }
    void arm() { disk().active = true; disk().onOpen = [this](const char*, const char*) { if (r.chance(openFail)) { failed = true; ctx.fault("disk_open_failed"); return EACCES; } return 0; }; }
};
void runSwarm(const Plan& p, Ctx& ctx) {
    if (p.ops.empty() || p.ops[0].kind != "problem") return;
    SeamGuard g; McGuard mg; Scratch scratch; Job j(p, ctx); World& w = j.w; Rng rr(p.seed); seams().rand = [&]() -> int { const double u = rr.u(); return u < 0.01 ? 0 : u > 0.99 ? RAND_MAX : static_cast<int>(rr.u() * 2147483647.0); }; const int D = w.n;
    bool saved = false;
    for (size_t o = 1; o < p.ops.size(); ++o) {         // 0 particles, 1 epochs, 2 inertia, 3 end inertia, 4 cognitive, 5 social, 6 max velocity, 7 start, 8 early, 9 duplicates, 10 open failures, 11 tear, 12 lost
        const Op& q = p.ops[o]; const int N = std::min(12, std::max(1, q.i(0))), E = std::min(30, std::max(1, q.i(1))); GunnsOptimParticleSwarmConfigData cfg; cfg.mNumParticles = N; cfg.mMaxEpoch = E; cfg.mInertiaWeight = std::max(0.01, q.d(2)); cfg.mInertiaWeightEnd = std::max(0.01, q.d(3)); cfg.mCognitiveCoeff = std::max(0.01, q.d(4)); cfg.mSocialCoeff = std::max(0.01, q.d(5)); cfg.mMaxVelocity = std::min(1.0, std::max(0.001, q.d(6))); cfg.mRandomSeed = 1;
        int start = std::abs(q.i(7)) % 4; j.early = std::min(0.9, std::max(0.0, q.d(8))); j.dup = q.d(9);
        const std::vector<std::string> file = lines("pso_state.csv"); if (start >= 2 && (!saved || file.size() != static_cast<size_t>(N) + 2)) start = 0; cfg.mInitDistribution = static_cast<GunnsOptimParticleSwarmConfigData::SwarmDistribution>(start);
        GunnsOptimMonteCarlo m("master"); m.addOptimizer(GunnsOptimFactory::PSO); GunnsOptimParticleSwarm& s = dynamic_cast<GunnsOptimParticleSwarm&>(*m.mOptimizer); s.setConfigData(&cfg); w.inputs(m); ctx.check(static_cast<int>(s.getNumRuns()) == N * E, "optimizer: wrong number of runs");
        if (start >= 2 && q.d(11) > 0) {                // the last stop tore the file: it must be refused, not half used
            const std::string whole = slurp("pso_state.csv"); spit("pso_state.csv", whole.substr(0, static_cast<size_t>(std::min(0.999, q.d(11)) * whole.size()))); ctx.fault("state_file_torn"); bool refused = false; GunnsOptimMonteCarlo t("torn"); t.addOptimizer(GunnsOptimFactory::PSO); t.mOptimizer->setConfigData(&cfg); w.inputs(t);
            try { t.initMaster(); } catch (std::exception&) { refused = true; } ctx.check(refused, fmt("optimizer: phase %zu starts from a torn state file", o)); spit("pso_state.csv", whole);
        }
        j.openFail = q.d(10); j.arm(); if (!j.guarded([&] { m.initMaster(); })) { disk().active = false; ctx.check(slurp("pso_state.csv").size() || !saved, "optimizer: a failed start loses the state file"); continue; }
        disk().active = false; if (start >= 2) ctx.fault("restart");
        std::vector<V> pos(N), vel(N), pbest(N); V pcost(N, DBL_MAX), gbest, maxV(D); double gcost = DBL_MAX; for (int d = 0; d < D; ++d) maxV[d] = cfg.mMaxVelocity * (w.hi[d] - w.lo[d]) * (1 + 1e-12);
        for (int i = 0; i < N; ++i) {
            GunnsOptimParticleSwarmParticle& a = s.mParticles[i]; pos[i] = a.mCurrentState.mState; vel[i] = a.mCurrentState.mVelocity; w.inside(pos[i], "first position of particle", i);
            if (start != 3) for (int d = 0; d < D; ++d) ctx.check(std::fabs(vel[i][d]) <= maxV[d], fmt("optimizer: particle %d starts with speed %.9g, limit %.9g", i, vel[i][d], maxV[d]));
            if (start == 1) for (int d = 0; d < D; ++d) ctx.check(pos[i][d] == (i < N / 2 ? w.lo[d] : w.hi[d]), fmt("optimizer: particle %d does not start in its corner", i));
            if (start >= 2) { const V f = cells(file[2 + i], ' '); for (int d = 0; d < D; ++d) ctx.check(near6(pos[i][d], f[3 + d]), fmt("optimizer: particle %d restarts at %.9g, saved was %.9g", i, pos[i][d], f[3 + d]));
                if (start == 3) { pcost[i] = a.mBestState.mCost; pbest[i] = a.mBestState.mState; ctx.check(near6(pcost[i], f[3 + 2 * D]), fmt("optimizer: particle %d restarts with best cost %.9g, saved was %.9g", i, pcost[i], f[3 + 2 * D])); for (int d = 0; d < D; ++d) ctx.check(near6(vel[i][d], f[3 + D + d]) && near6(pbest[i][d], f[4 + 2 * D + d]), fmt("optimizer: particle %d restarts with velocity %.9g and best state %.9g, saved were %.9g and %.9g", i, vel[i][d], pbest[i][d], f[3 + D + d], f[4 + 2 * D + d])); } }
        }
        if (start == 3) { const V f = cells(file[1], ' '); gcost = s.mGlobalBestState.mCost; gbest = s.mGlobalBestState.mState; ctx.check(near6(gcost, f[2]), fmt("optimizer: restarts with best cost %.9g, saved was %.9g", gcost, f[2])); for (int d = 0; d < D; ++d) ctx.check(near6(gbest[d], f[3 + d]), "optimizer: restarts with another best state"); }
        else ctx.check(s.mGlobalBestState.mCost == DBL_MAX, "optimizer: starts with a best cost that no run had");
        const size_t rows0 = lines("pso_cost_history.csv").size(), swarm0 = lines("pso_swarm_history.csv").size(); if (start != 3) ctx.check(rows0 == 1 && swarm0 == 1, "optimizer: a new history does not start with its header alone");
        bool ended = false; std::vector<Result> out; std::vector<V> sent(N); V costs(N, -1); int id = 0;
        for (int e = 1; e <= E + 1 && !ended; ++e) {
            j.arm(); ended = !j.guarded([&] { if (e > E) m.updateMasterShutdown(); else m.updateMasterPre(); }); disk().active = false; if (ended) { ctx.probe("master_ended"); break; }
            if (e > 1) {                                // an epoch has ended
                for (int i = 0; i < N; ++i) { if (costs[i] < gcost) { gcost = costs[i]; gbest = pos[i]; } if (costs[i] < pcost[i]) { pcost[i] = costs[i]; pbest[i] = pos[i]; } }
                const std::string at = fmt("optimizer: phase %zu epoch %d: ", o, e); bool right = s.mGlobalBestState.mCost == gcost && s.mGlobalBestState.mState == gbest; for (int i = 0; i < N; ++i) right = right && s.mParticles[i].mBestState.mCost == pcost[i] && s.mParticles[i].mBestState.mState == pbest[i];
                if (!out.empty()) { if (!right) ctx.finding("swarm-missing-result", at + fmt("with %zu results still out the best state is taken from costs of earlier positions", out.size())); return; }
                ctx.check(right, at + fmt("best cost is %.12g, best returned so far %.12g, or a best state is not where its cost came from", s.mGlobalBestState.mCost, gcost)); ctx.check(gbest.size() == static_cast<size_t>(D), at + "no best state"); 
                const double iw = cfg.mInertiaWeight + (cfg.mInertiaWeightEnd - cfg.mInertiaWeight) * e / cfg.mMaxEpoch;
                for (int i = 0; i < N; ++i) {
                    const V& x = s.mParticles[i].mCurrentState.mState; const V& v = s.mParticles[i].mCurrentState.mVelocity; w.inside(x, "position of particle", i);
                    for (int d = 0; d < D; ++d) {
                        const double a = cfg.mCognitiveCoeff * (pbest[i][d] - pos[i][d]), b = cfg.mSocialCoeff * (gbest[d] - pos[i][d]), tol = 1e-9 * (std::fabs(a) + std::fabs(b) + std::fabs(iw * vel[i][d]) + std::fabs(pos[i][d]));
                        const double vl = std::max(-maxV[d], std::min(maxV[d], iw * vel[i][d] + std::min(0.0, a) + std::min(0.0, b))) - tol, vh = std::max(-maxV[d], std::min(maxV[d], iw * vel[i][d] + std::max(0.0, a) + std::max(0.0, b))) + tol;
                        const bool wall = x[d] == w.lo[d] || x[d] == w.hi[d]; const double vv = wall && !(v[d] >= vl && v[d] <= vh) ? -v[d] : v[d];
                        ctx.check(vv >= vl && vv <= vh, at + fmt("particle %d variable %d: velocity %.9g, its law allows %.9g to %.9g", i, d, v[d], vl, vh));
                        const double free = pos[i][d] + v[d], back = pos[i][d] - v[d]; ctx.check(std::fabs(x[d] - free) <= tol || (x[d] == w.lo[d] && back <= w.lo[d] + tol) || (x[d] == w.hi[d] && back >= w.hi[d] - tol), at + fmt("particle %d variable %d moved from %.9g to %.9g with velocity %.9g", i, d, pos[i][d], x[d], v[d])); if (wall) ctx.probe("reflected");
                    }
                    pos[i] = x; vel[i] = v;
                }
                const std::vector<std::string> h = lines("pso_cost_history.csv"), hs = lines("pso_swarm_history.csv"); ctx.check(h.size() == rows0 + e - 1 && hs.size() == swarm0 + e - 1, at + fmt("history has %zu and %zu rows", h.size(), hs.size()));
                const V row = cells(h.back(), ','), rs = cells(hs.back(), ','); ctx.check(row.size() == 2 && row[0] == e && near6(row[1], gcost), at + "cost history row is '" + h.back() + "'"); ctx.check(rs.size() == static_cast<size_t>(1 + N * (D + 1) + D + 1) && rs[0] == e && near6(rs.back(), gcost), at + "swarm history row is '" + hs.back() + "'");
                for (int i = 0; i < N; ++i) { for (int d = 0; d < D; ++d) ctx.check(near6(rs[1 + i * (D + 1) + d], pos[i][d]), at + "swarm history shows another position"); ctx.check(near6(rs[1 + i * (D + 1) + D], costs[i]), at + fmt("swarm history shows cost %.9g of particle %d, returned was %.9g", rs[1 + i * (D + 1) + D], i, costs[i])); }
                ctx.state(fmt("%d %d %d %d %d", start, N, D, e, costs[0] < gcost * 1.1)); ctx.log(fmt("%d %.9g", e, gcost));
            }
            if (e > E) break;
            costs.assign(N, -1); const int base = id; const int lost = q.d(12) > 0 && j.r.chance(q.d(12)) ? j.r.irange(0, N - 1) : -1;
            for (int i = 0; i < N; ++i) {
                if (i) m.updateMasterPre();
                ctx.check(m.mRunId == id && w.x == pos[i], fmt("optimizer: phase %zu: run %d does not get the position of particle %d", o, id, i)); out.push_back(w.slave(w.x, m.mRunId, e)); ++id; if (i == lost) continue; 
                if (lost < 0) j.someBack(m, out, costs, base, false);
            }
            if (lost >= 0) { Result gone = out[lost]; out.erase(out.begin() + lost); j.someBack(m, out, costs, base, true); out.push_back(gone); costs[lost] = DBL_MAX; ctx.fault("result_missing"); } else { j.someBack(m, out, costs, base, true); for (double& c : costs) ctx.check(c >= 0, "harness: result not delivered"); }
        }
        if (ended) continue;
        const std::vector<std::string> f = lines("pso_state.csv"); saved = true; ctx.check(f.size() == static_cast<size_t>(N) + 2, fmt("optimizer: phase %zu: state file has %zu rows", o, f.size())); const V b = cells(f[1], ' '); ctx.check(b.size() == static_cast<size_t>(4 + 3 * D) && near6(b[2], gcost), "optimizer: state file shows another best cost");
        for (int i = 0; i < N; ++i) { const V a = cells(f[2 + i], ' '); ctx.check(a.size() == static_cast<size_t>(4 + 3 * D) && a[0] == i && near6(a[3 + 2 * D], pcost[i]), "optimizer: state file shows another personal best cost"); for (int d = 0; d < D; ++d) ctx.check(near6(a[3 + d], pos[i][d]) && near6(a[3 + D + d], vel[i][d]) && near6(a[4 + 2 * D + d], pbest[i][d]), fmt("optimizer: state file row of particle %d is '%s'", i, f[2 + i].c_str())); }
        ctx.probe("phase_done");
    }
}
void runDescent(const Plan& p, Ctx& ctx) {
    if (p.ops.empty() || p.ops[0].kind != "problem") return;
    SeamGuard g; McGuard mg; Scratch scratch; Job j(p, ctx); World& w = j.w; const int D = w.n;
    for (size_t o = 1; o < p.ops.size(); ++o) {         // 0 epochs, 1 gain, 2 early, 3 duplicates, 4 open failures, 5.. initial state
        const Op& q = p.ops[o]; const int E = std::min(30, std::max(1, q.i(0))), N = 2 * D + 1; V init; for (int d = 0; d < D; ++d) init.push_back(q.d(5 + d)); GunnsOptimGradientDescentConfigData cfg; cfg.mNumVars = D; cfg.mMaxEpoch = E; cfg.mPropagationGain = q.d(1); cfg.mInitialState = &init[0]; j.early = std::min(0.9, std::max(0.0, q.d(2))); j.dup = q.d(3); j.openFail = q.d(4);
        GunnsOptimMonteCarlo m("master"); m.addOptimizer(GunnsOptimFactory::GRADIENT_DESCENT); GunnsOptimGradientDescent& s = dynamic_cast<GunnsOptimGradientDescent&>(*m.mOptimizer); s.setConfigData(&cfg); w.inputs(m); ctx.check(static_cast<int>(s.getNumRuns()) == N * E, "optimizer: wrong number of runs");
        j.arm(); if (!j.guarded([&] { m.initMaster(); })) { disk().active = false; continue; } disk().active = false;
        V x(D), costs(N, -1); for (int d = 0; d < D; ++d) x[d] = std::min(w.hi[d], std::max(w.lo[d], init[d])); std::vector<V> sent(N); std::vector<Result> out; int id = 0; bool ended = false;
        for (int e = 1; e <= E + 1 && !ended; ++e) {
            j.arm(); ended = !j.guarded([&] { if (e > E) m.updateMasterShutdown(); else m.updateMasterPre(); }); disk().active = false; if (ended) break;
            if (e > 1) {
                const std::string at = fmt("optimizer: phase %zu epoch %d: ", o, e);
                for (int d = 0; d < D; ++d) {
                    double best = 0, step = 0; for (int k = 0; k < 2; ++k) { const double dc = costs[1 + 2 * d + k] - costs[0], ds = sent[1 + 2 * d + k][d] - sent[0][d]; if (dc < best && std::fabs(ds) > DBL_EPSILON) { best = dc; step = -costs[0] / (dc / ds); } }
                    const double y = std::min(w.hi[d], std::max(w.lo[d], x[d] + step * cfg.mPropagationGain / D)), got = s.mState->mState[d]; ctx.check(std::fabs(got - y) <= 1e-9 * (std::fabs(y) + std::fabs(x[d]) + std::fabs(step * cfg.mPropagationGain)), at + fmt("variable %d goes from %.12g to %.12g, its costs say to %.12g", d, x[d], got, y)); x[d] = got;
                }
                const std::vector<std::string> h = lines("grad_cost_history.csv"); const V row = cells(h.back(), ','); ctx.check(h.size() == static_cast<size_t>(e) && row.size() == 2 && row[0] == e && near6(row[1], costs[0]), at + "cost history row is '" + h.back() + "'"); ctx.log(fmt("%d %.9g", e, costs[0])); ctx.state(fmt("descent %d %d %d", D, e, costs[0] < 1)); ctx.check(lines("grad_gradients_history.csv").size() == static_cast<size_t>(1 + 2 * D * (e - 1)), at + "gradient history has the wrong length");
            }
            if (e > E) break;
            costs.assign(N, -1); const int base = id;
            for (int i = 0; i < N; ++i) {
                if (i == 1) { j.arm(); ended = !j.guarded([&] { m.updateMasterPre(); }); disk().active = false; if (ended) break; } else if (i) m.updateMasterPre();
                V want = x; if (i) { const int d = (i - 1) / 2; const double sg = i % 2 ? 1 : -1, ds = 0.001 * (x[d] == 0 ? w.hi[d] - w.lo[d] : std::fabs(x[d])); want[d] = std::min(w.hi[d], std::max(w.lo[d], x[d] + sg * ds)); }
                for (int d = 0; d < D; ++d) ctx.check(std::fabs(w.x[d] - want[d]) <= 1e-12 * std::fabs(want[d]) + 1e-15, fmt("optimizer: phase %zu: run %d of epoch %d has variable %d at %.12g, should be %.12g", o, i, e, d, w.x[d], want[d])); w.inside(w.x, "run", i); ctx.check(m.mRunId == id, "optimizer: run ids do not count up");
                sent[i] = w.x; out.push_back(w.slave(w.x, m.mRunId, e)); ++id; j.someBack(m, out, costs, base, false);
            }
            if (ended) break;
            j.someBack(m, out, costs, base, true);
        }
        if (ended) { ctx.probe("master_ended"); continue; }
        const std::vector<std::string> f = lines("grad_state.csv"); const V a = f.size() == 2 ? cells(f[1], ',') : V(); ctx.check(a.size() == static_cast<size_t>(D + 1) && near6(a[0], costs[0]), "optimizer: state file shows another cost"); for (int d = 0; d < D; ++d) ctx.check(near6(a[1 + d], x[d]), "optimizer: state file shows another state"); ctx.probe("descent_done");
    }
}
void problem(Rng& r, Plan& p) {
    const int n = r.irange(1, 4); std::vector<double> a = {(double)n, (double)r.irange(1, 8), (double)r.irange(1, 8), r.range(0.1, 2), r.range(0.1, 3), r.chance(0.5) ? 0 : r.range(-1, 1)};
    for (int i = 0; i < n; ++i) { const double lo = r.chance(0.2) ? 0 : r.range(-10, 10), w = r.logRange(0.1, 20); a.push_back(lo); a.push_back(w); a.push_back(lo + w * r.range(-0.2, 1.2)); } p.add("problem", a);
}
void genSwarm(Rng& r, Plan& p, bool deep) {
    problem(r, p); const int phases = r.irange(1, deep ? 5 : 3), N = r.irange(1, 10); const double fail = r.chance(0.15) ? 0.05 : 0, dup = r.chance(0.4) ? 0.2 : 0;
    for (int i = 0; i < phases; ++i) p.add("swarm", {(double)(r.chance(0.9) ? N : r.irange(1, 10)), (double)r.irange(1, deep ? 25 : 10), r.range(0.3, 1.2), r.range(0.1, 1), r.range(0.1, 2.5), r.range(0.1, 2.5), r.chance(0.3) ? 1.0 : r.logRange(0.01, 1), (double)(i ? r.irange(0, 3) | (r.chance(0.6) ? 2 : 0) : r.irange(0, 1)), r.chance(0.5) ? 0 : r.u() * 0.8, dup, fail, r.chance(0.4) ? r.u() : 0, r.chance(0.1) ? 0.1 : 0});
}
void genDescent(Rng& r, Plan& p, bool deep) {
    problem(r, p); const int phases = r.irange(1, 2), n = p.ops[0].i(0);
    for (int i = 0; i < phases; ++i) { std::vector<double> a = {(double)r.irange(1, deep ? 25 : 10), r.logRange(0.01, 1), r.chance(0.3) ? 0 : r.u() * 0.8, r.chance(0.4) ? 0.2 : 0, r.chance(0.15) ? 0.05 : 0}; for (int d = 0; d < n; ++d) a.push_back(r.chance(0.2) ? 0.0 : r.range(-12, 25)); p.add("descent", a); }
}
Register o01({"O01", "distinct = different problem, optimizer settings, result order or fault history; trivial = no run is handed out", "start of the swarm, particles, variables, epoch, quality of the first particle", {
    Scenario{"swarm", 2, genSwarm, runSwarm}, Scenario{"descent", 1, genDescent, runDescent}}, 3000, 200000,
    {"GunnsOptimMonteCarlo (master and slaves)", "GunnsOptimFactory", "GunnsOptimParticleSwarm", "GunnsOptimGradientDescent", "GunnsInfraFunctions", "Strings"}, {"Trick's job dispatch and result transport; the optimized model; rand; file opening"},
    {"Input constraints between variables are not used"}});
} // namespace
} // namespace dst
