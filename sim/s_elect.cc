// E01: electrical distribution: circuit solution, trip selectivity, loads and shorts.
#include "trace.hh"
#include "electnet.hh"

namespace dst {
namespace {

double sens(const SensorAnalog& s, double x) {
    float v = std::fabs(x) < FLT_MIN ? 0.0f : (float)x;
    if (s.mMalfFailToFlag) v = s.mMalfFailToValue;
    else { if (s.mMalfScaleFlag) v *= s.mMalfScaleValue; if (s.mMalfBiasFlag) v += s.mMalfBiasValue; }
    return std::min(std::max(v, s.mMinRange), s.mMaxRange);
}

struct RefSw { bool pos = false; int trips = 0; bool cmd = false; };

struct E01 {
    ElectNet N; Ctx& ctx; bool simple = true, moved = false;
    double eps = 100 * DBL_EPSILON;
    explicit E01(Ctx& c) : ctx(c) {}

    // Reference conductance of a load at supply voltage V.
    double loadG(ElLoad& q, double V) const {
        if (q.magic) V = q.magicV; else if (q.blown || q.malfBlow) V = 0;
        if (!(V > q.uv)) return 1.0e-8;
        double R = 1e8;
        if (q.cp) {
            double P = q.ovI ? V * q.ovIv : q.ovP ? q.ovPv : q.mode == LoadON ? q.rn : q.mode == LoadSTANDBY ? q.rs : 0;
            if (P > 0) { const double l = std::max(V, 0.99 * q.uv); R = l * l / P; }
        }
        else if (q.ovI) R = q.ovIv == 0 ? 1e8 : V / q.ovIv;
        else if (q.ovP) R = q.ovPv == 0 ? 1e8 : V * V / q.ovPv;
        else if (q.mode != LoadOFF) { const double r = q.mode == LoadON ? q.rn : q.rs; R = r > 0 ? std::min(std::max(r, 0.1), 1e8) : 1e8; }
        return 1.0 / std::max(R, DBL_EPSILON);
    }
    double shortG(ElLink& m, double V) const {
        switch (m.shortMode) {
            case 1: return std::fabs(m.shortV) / std::max(V * V, DBL_EPSILON);
            case 2: return std::fabs(m.shortV) / std::max(std::fabs(V), DBL_EPSILON);
            case 3: case 4: return std::max(0.0, m.latched);
            case 5: return 1.0 / std::max(m.shortV, DBL_EPSILON);
            default: return 0;
        }
    }
    double swR(ElLink& m) { double r = m.g; if (m.t == EL_SW1 && m.u1().mMalfFailResistance) r *= pct(m.u1().mMalfFailResistPercent); if (m.t == EL_SWE && m.ue().mMalfFailResistance) r *= pct(m.ue().mMalfFailResistPercent); return r; }
    static double pct(double v) { return v > 1 ? v / 100 : v; }
    // Voltage a switch's loads see.
    double loadV(ElLink& m, bool pos, double v0, double flux) { if (m.ovr) return m.ovrV; return !m.loads.empty() && pos && flux >= 0 ? std::max(0.0, v0 - flux * swR(m)) : 0.0; }
    // Conductance of a link given the switch position and the voltages its loads see.
    double linkG(ElLink& m, bool pos, double vload, double dv) {
        double g = 0;
        if (m.t == EL_POT || m.t == EL_RES || m.t == EL_SEL) g = m.g;
        else if (m.t == EL_SHORT) g = shortG(m, dv);
        else if (m.sw()) {
            if (!pos) return 0;
            double R = swR(m);
            if (m.t != EL_SWE) {
                if (!m.loads.empty()) { double G = eps; for (auto& q : m.loads) G += loadG(*q, vload); if (!m.ovr) G += shortG(m, vload); R += 1.0 / G; }
                else if (m.ports[1] == N.n) R = 1e15;
            }
            g = 1.0 / R;
        }
        g *= ElectNet::blockOf(m.l.get());
        return g < eps ? 0.0 : std::min(g, 1e15);
    }
    static int other(const ElLink& m) { return (int)m.s >= 1 && (int)m.s < (int)m.ports.size() ? (int)m.s : 0; }
    void stamp(Circuit& c, ElLink& m, double g) {
        if (m.t == EL_POT) { c.g(m.ports[1], N.n, g); c.src(m.ports[1], g * m.s); }
        else if (m.t == EL_SRC) { const double f = m.s * ElectNet::blockOf(m.l.get()); c.src(m.ports[0], -f); c.src(m.ports[1], f); }
        else if (m.t == EL_SEL) { const int p = other(m); if (p) c.g(m.ports[0], m.ports[p], g); }
        else if (m.sw() && m.t != EL_SWE && m.ovr) { c.g(m.ports[1], N.n, 1e8); c.src(m.ports[1], 1e8 * m.ovrV); }
        else c.g(m.ports[0], m.ports[1], g);
    }
    // Solves the circuit for given positions; load voltages follow the solution (fixed point).
    bool solve(std::vector<RefSw>& r, std::vector<double>& P, std::vector<double>& G) {
        std::vector<double> vl(N.L.size(), 0.0);
        for (size_t k = 0; k < N.L.size(); ++k) { ElLink& m = *N.L[k]; if (!m.loads.empty()) vl[k] = m.ovr ? m.ovrV : r[k].pos ? 1.0 : 0.0; }
        for (int it = 0; it < 8; ++it) {
            Circuit c(N.n);
            for (size_t k = 0; k < N.L.size(); ++k) { ElLink& m = *N.L[k]; G[k] = linkG(m, r[k].pos, vl[k], 0); stamp(c, m, G[k]); }
            P = c.solve();
            bool same = true;
            for (size_t k = 0; k < N.L.size(); ++k) {
                ElLink& m = *N.L[k]; if (m.loads.empty() || m.ovr) continue;
                const double v = r[k].pos && P[m.ports[0]] > 0 ? 1.0 : 0.0;   // loads of the reference only need a voltage above zero
                if (v != vl[k]) { vl[k] = v; same = false; }
            }
            if (same) return true;
        }
        return false;
    }
    double refFlux(ElLink& m, double g, const std::vector<double>& P) {
        const double a = m.t == EL_POT ? m.s : P[m.ports[0]], b = P[m.ports[m.t == EL_SEL ? other(m) : 1]];
        return g * (a - b);
    }
    bool amb = false; double vmax = 1, imax = 1;
    bool gt(double x, double lim, double scale) { if (std::fabs(x - lim) <= 1e-5 * (std::fabs(lim) + std::fabs(x)) + 1e-9 * scale) amb = true; return (float)x > (float)lim; }

    void step(double dt) {
        const int n = N.n; const size_t K = N.L.size();
        std::vector<double> P0(n + 1); for (int i = 0; i <= n; ++i) P0[i] = N.nodes[i].getPotential();
        std::vector<double> F0(K); for (size_t k = 0; k < K; ++k) F0[k] = N.L[k]->l->getFlux();
        // --- the state the operator left
        const bool mv = moved; bool judge = simple && !mv; moved = false;   // a moved switch sees its loads at the old node's voltage for one pass
        std::vector<RefSw> r(K); std::vector<std::vector<char> > blown(K);
        for (size_t k = 0; k < K; ++k) {
            ElLink& m = *N.L[k];
            if (m.shortMode == 3 || m.shortMode == 4) if (m.relatch) {
                double v = m.t == EL_SHORT && !mv ? std::fabs(P0[m.ports[0]] - P0[m.ports[1]]) : -1;
                if (m.t != EL_SHORT) judge = false;          // latches the load voltage at the first closed update
                m.latched = v < 0 ? -1 : std::fabs(m.shortV) / std::max(m.shortMode == 3 ? v * v : v, DBL_EPSILON);
                m.relatch = false;
            }
            if (m.t != EL_SHORT && (m.shortMode == 1 || m.shortMode == 2 || m.shortMode == 3 || m.shortMode == 4)) judge = false;
            if (m.t == EL_SHORT && (m.shortMode == 1 || m.shortMode == 2 || ((m.shortMode == 3 || m.shortMode == 4) && m.latched < 0))) judge = false;
            if (!m.loads.empty() && (F0[k] < 0 || P0[m.ports[0]] < 0)) judge = false;   // loads come alive one pass after a reverse current
            for (auto& q : m.loads) {
                if (q->period > 0) { q->timer += dt; if (q->timer > q->period) q->timer = 0; if (std::fabs(q->timer / q->period - q->duty) < 1e-9) judge = false; q->mode = q->timer / q->period > q->duty ? LoadOFF : LoadON; }
                if (q->malfBlow) q->blown = true;
                blown[k].push_back(q->blown);
            }
            if (!m.sw()) continue;
            RefSw& s = r[k]; s.pos = m.closed(); s.trips = m.trips();
            if (m.t == EL_SW2) {
                GunnsElectSwitchUtil2& u = m.u2(); s.cmd = u.mPositionCommand && !m.ovr;
                if (u.mWaitingToTrip) judge = false;
                if ((s.trips && !s.cmd) || u.mResetTripsCommand) s.trips = 0;
                if (u.mMalfFailClosed) s.pos = true; else if (u.mMalfFailOpen) s.pos = false; else s.pos = s.trips ? false : s.cmd;
            } else {
                auto go = [&](auto& u) {
                    s.cmd = u.mSwitchCommandedClosed && !m.ovr;
                    if (u.mWaitingToTrip || u.mExternalTrip) judge = false;
                    if (s.trips && s.cmd && u.mTripReset) judge = false;      // documented two-update reset
                    s.pos = s.trips ? false : s.cmd;
                    if (u.mMalfFailClosed) s.pos = true; else if (u.mMalfFailOpen) s.pos = false;
                    if ((s.trips && !s.cmd) || u.mTripReset) s.trips = 0;
                };
                if (m.t == EL_SW1) go(m.u1()); else go(m.ue());
            }
        }
        const int fails = N.net.getConvergenceFailCount(), minors = N.net.getMinorStepCount();
        // --- reference
        std::vector<double> P, G(K, 0.0); amb = false; int rounds = 0, tripped = 0, reclosed = 0, fuses = 0; int maxPrio = 1;
        for (auto& m : N.L) maxPrio = std::max(maxPrio, m->prio);
        std::vector<RefSw> before = r;
        bool lag = false; std::vector<double> fs(F0);
        if (judge) for (;;) {
            if (++rounds > 40 || !solve(r, P, G)) { judge = false; break; }
            vmax = 1e-9; for (double v : P) vmax = std::max(vmax, std::fabs(v));
            for (size_t i = 0; i < K; ++i) {      // a load sees its switch's last accepted current: one whose supply collapses or reverses stays dark for a pass
                ElLink& m = *N.L[i]; if (m.loads.empty() || m.ovr || !r[i].pos) continue;
                const double v = P[m.ports[0]]; if (v > 0 && (fs[i] < 0 || v - fs[i] * swR(m) <= 1e-6 * vmax)) lag = true;
                fs[i] = refFlux(m, G[i], P); if (v < 0 || fs[i] < 0) lag = true;
            }
            bool again = false;
            for (int k = 1; k <= maxPrio && !again; ++k) for (size_t i = 0; i < K; ++i) {
                ElLink& m = *N.L[i]; if (!m.sw() || m.ovr) continue; RefSw& s = r[i];
                const double v0 = P[m.ports[0]];
                if (k == 1) {
                    bool f = false;
                    for (size_t j = 0; j < m.loads.size() && !f; ++j) { ElLoad& q = *m.loads[j]; if (q.fuse > 0 && !q.blown && gt(v0 * loadG(q, s.pos && v0 > 0 ? 1.0 : 0.0), q.fuse, vmax)) { q.blown = true; f = true; ++fuses; } }
                    if (f) { again = true; continue; }
                }
                const double fl = refFlux(m, G[i], P), sc = G[i] * vmax;
                if (m.t == EL_SW2) {
                    GunnsElectSwitchUtil2& u = m.u2();
                    const double I = sens(m.s2()->mCurrentSensor, fl), V = sens(m.s2()->mInputVoltageSensor, v0);
                    if ((s.trips & 3) && !(u.mMalfFailOpen || (s.trips & 12))) {
                        bool hit = false;
                        if ((s.trips & 1) && u.mInputUnderVoltageReset.getLimit() != 0 && m.prio > 0 && gt(V, u.mInputUnderVoltageReset.getLimit(), vmax) && k == m.prio) { s.trips &= ~1; hit = true; }
                        if ((s.trips & 2) && u.mInputOverVoltageReset.getLimit() != 0 && m.prio > 0 && gt(u.mInputOverVoltageReset.getLimit(), V, vmax) && k == m.prio) { s.trips &= ~2; hit = true; }
                        if (hit) { again = true; if (s.cmd && !s.trips) s.pos = true; ++reclosed; }
                    } else if (s.cmd && !s.trips && !u.mMalfFailClosed && m.prio > 0) {
                        auto trip = [&](GunnsTripLogic& t, int bit, auto cond_) {
                            if (t.mMalfInhibitTrip || t.getLimit() == 0) return; const bool cond = cond_();
                            if (t.mMalfForceTrip || (cond && k == m.prio)) { s.trips |= bit; }
                        };
                        trip(u.mInputUnderVoltageTrip, 1, [&] { return gt(u.mInputUnderVoltageTrip.getLimit(), V, vmax); });
                        trip(u.mInputOverVoltageTrip, 2, [&] { return gt(V, u.mInputOverVoltageTrip.getLimit(), vmax); });
                        trip(u.mPosOverCurrentTrip, 4, [&] { return gt(I, u.mPosOverCurrentTrip.getLimit(), sc); });
                        trip(u.mNegOverCurrentTrip, 8, [&] { return gt(u.mNegOverCurrentTrip.getLimit(), I, sc); });
                        if (s.trips) { s.pos = false; again = true; ++tripped; }
                    }
                } else {
                    auto go = [&](auto& u) {
                        if (u.mMalfFailClosed || !(u.mOverCurrentProtection && !u.mMalfIgnoreCurrentTrip)) return;
                        const double I = s.pos ? fl : 0, pl = u.mMalfPosTripSetpointFail ? u.mMalfPosTripSetpointFailValue : u.mDefaultPosTripLimit, nl = u.mMalfNegTripSetpointFail ? u.mMalfNegTripSetpointFailValue : u.mDefaultNegTripLimit;
                        int t = 0; if (gt(I, pl, sc) && k >= m.prio) t |= 4; if (gt(nl, I, sc) && k >= m.prio) t |= 8;
                        if (t && !s.trips) { again = true; ++tripped; }
                        if (t) { s.trips |= t; s.pos = false; }
                    };
                    if (m.t == EL_SW1) go(m.u1()); else go(m.ue());
                }
            }
            if (!again) break;
        }
        if (lag) { judge = false; ctx.probe("load_lags_collapse"); }
        if (amb) { judge = false; ctx.probe("trip_limit_too_close_to_call"); }

        N.net.step(dt);
        ctx.advance(dt);
        traceStep(N.net);
        const bool conv = N.net.getConvergenceFailCount() == fails;
        if (!conv) { ctx.probe("did_not_converge"); judge = false; moved = true; }
        std::vector<double> Q(n + 1); double V = 1e-6;
        for (int i = 0; i <= n; ++i) { Q[i] = N.nodes[i].getPotential(); ctx.check(finite(Q[i]), fmt("finite: node %d has no finite voltage", i)); V = std::max(V, std::fabs(Q[i])); ctx.logd("V", Q[i]); }
        ctx.check(Q[n] == 0.0, "ground: the ground node is not at zero volts");
        std::string st;
        for (size_t k = 0; k < K; ++k) { ElLink& m = *N.L[k]; if (m.sw()) { st += fmt("%d%d%d,", m.t, (int)m.closed(), m.trips()); } }
        ctx.state(st + fmt("%d", rounds));

        if (judge) {
            if (tripped) ctx.probe("trip", tripped);
            if (tripped > 1) ctx.probe("several_trips_in_a_step");
            if (rounds > 2) ctx.probe("cascade");
            if (reclosed) ctx.probe("voltage_trip_recovered", reclosed);
            if (fuses) ctx.probe("fuse_blown", fuses);
            for (size_t k = 0; k < K; ++k) {
                ElLink& m = *N.L[k]; if (!m.sw()) continue;
                ctx.check(m.closed() == r[k].pos && m.trips() == r[k].trips, fmt("trip: switch %zu (type %d, priority %d) ended %s with trips %d, should be %s with trips %d", k, m.t, m.prio, m.closed() ? "closed" : "open", m.trips(), r[k].pos ? "closed" : "open", r[k].trips));
                for (size_t j = 0; j < m.loads.size(); ++j) ctx.check(m.loads[j]->base()->mFuseIsBlown == m.loads[j]->blown, fmt("fuse: load %zu of switch %zu has its fuse %s, should be %s", j, k, m.loads[j]->base()->mFuseIsBlown ? "blown" : "intact", m.loads[j]->blown ? "blown" : "intact"));
            }
            for (int i = 0; i < n; ++i) ctx.check(std::fabs(Q[i] - P[i]) <= 1e-7 * vmax + 1e-9, fmt("circuit: node %d is at %.12g V, the circuit's solution is %.12g V", i, Q[i], P[i]));
        } else for (auto& m : N.L) for (auto& q : m->loads) q->blown = q->base()->mFuseIsBlown;
        // --- invariants of any converged step
        if (conv) {
            // A step is settled when another one would change nothing: voltages did not move.
            bool settled = !mv && N.net.getMinorStepCount() - minors <= 2; for (int i = 0; i < n; ++i) if (std::fabs(Q[i] - P0[i]) > 1e-9 * V) settled = false;
            for (size_t k = 0; k < K; ++k) if (std::fabs(N.L[k]->l->getFlux() - F0[k]) > 1e-9 * (std::fabs(F0[k]) + 1e-3)) settled = false;   // load voltages use the last flux
            std::vector<double> in(n + 1, 0.0), out(n + 1, 0.0), sc(n + 1, 0.0);
            for (size_t k = 0; k < K; ++k) {
                ElLink& m = *N.L[k]; GunnsBasicLink* l = m.l.get();
                int a = m.ports[0], b = m.ports[1]; if (m.t == EL_SEL) b = m.ports[other(m)];
                const double f = l->getFlux();
                for (size_t i = 0; i < m.ports.size(); ++i) ctx.check(l->getNodeMap()[i] == m.ports[i], fmt("ports: link %zu port %zu is on node %d instead of %d", k, i, l->getNodeMap()[i], m.ports[i]));
                if (!(m.sw() && m.t != EL_SWE && m.ovr)) {
                    if (m.t == EL_SRC) ctx.check(near(f, m.s * ElectNet::blockOf(l), 1e-12, 1e-12), fmt("current-source: link %zu delivers %.12g A instead of %.12g", k, f, m.s));
                    if (a != b) { (f > 0 ? out : in)[a] += std::fabs(f); (f > 0 ? in : out)[b] += std::fabs(f); }
                    sc[a] += std::fabs(l->getAdmittanceMatrix()[0]) * V + std::fabs(f); sc[b] += std::fabs(l->getAdmittanceMatrix()[0]) * V + std::fabs(f);
                    if (m.t == EL_POT) sc[b] += m.g * std::fabs(m.s);
                } else { sc[a] += HUGE_VAL; sc[b] += HUGE_VAL; }
                if (m.sw() && !m.closed() && !m.ovr) {
                    bool ext = m.t == EL_SW1 ? m.u1().mExternalTrip : m.t == EL_SWE ? m.ue().mExternalTrip : false;
                    if (!ext) ctx.check(f == 0.0, fmt("open-switch: switch %zu is open and carries %.9g A", k, f));
                }
                if (m.t == EL_SW2 && m.trips() && !m.u2().mMalfFailClosed) ctx.check(!m.closed(), fmt("tripped-open: switch %zu is tripped (%d) but closed", k, m.trips()));
                if (m.t == EL_SW2 && m.closed() && !m.ovr && m.prio > 0 && m.u2().mPositionCommand && !m.u2().mMalfFailClosed) {
                    GunnsElectSwitchUtil2& u = m.u2(); const double I = sens(m.s2()->mCurrentSensor, f), vi = sens(m.s2()->mInputVoltageSensor, Q[a]);
                    auto inside = [&](GunnsTripLogic& t, double over, double scale, const char* w) {
                        if (t.getLimit() == 0 || t.mMalfInhibitTrip) return;
                        ctx.check(over <= 1e-5 * std::fabs(t.getLimit()) + 1e-6 * scale, fmt("protection: closed switch %zu (priority %d) is %.9g beyond its %s limit %.9g after a converged step", k, m.prio, over, w, t.getLimit()));
                    };
                    inside(u.mPosOverCurrentTrip, I - u.mPosOverCurrentTrip.getLimit(), std::fabs(I), "positive current"); inside(u.mNegOverCurrentTrip, u.mNegOverCurrentTrip.getLimit() - I, std::fabs(I), "negative current");
                    inside(u.mInputUnderVoltageTrip, u.mInputUnderVoltageTrip.getLimit() - vi, V, "under-voltage"); inside(u.mInputOverVoltageTrip, vi - u.mInputOverVoltageTrip.getLimit(), V, "over-voltage");
                }
                // Law of the link at the solved voltages, load voltages lagging only while voltages move.
                if (settled && m.t != EL_SRC && !m.ovr && !(m.t == EL_SHORT && !simple)) {
                    const double vl = loadV(m, m.closed(), Q[a], f), dv = std::fabs(Q[a] - Q[b]);
                    bool edge = false; for (auto& q : m.loads) if (!q->magic && std::fabs(vl - q->uv) <= 1e-6 * V) edge = true;
                    if (m.shortMode >= 1 && m.shortMode <= 4 && (m.t != EL_SHORT || (m.shortMode >= 3 && m.latched < 0))) edge = true;
                    if (m.shortMode == 1 || m.shortMode == 2) if (m.t == EL_SHORT && dv < 1e-3 * V) edge = true;
                    if (!edge) {
                        const double g = linkG(m, m.closed(), vl, dv), va = m.t == EL_POT ? m.s : Q[a], fr = a == b ? 0.0 : g * (va - Q[b]);
                        ctx.check(std::fabs(f - fr) <= 1e-5 * std::fabs(fr) + g * V * 1e-6 + 1e-9, fmt("link-law: link %zu (type %d) carries %.12g A from %.9g V to %.9g V, its law gives %.12g A", k, m.t, f, va, Q[b], fr));
                        if (!m.loads.empty() && m.closed()) {
                            double want = 0; for (auto& q : m.loads) { const double x = q->magic ? 0 : vl * vl * loadG(*q, vl); want += x; }
                            bool mg = false; for (auto& q : m.loads) if (q->magic) mg = true;
                            want += vl * vl * shortG(m, vl); const double have = m.t == EL_SW2 ? m.s2()->mLoadsPower : m.s1()->mLoadsPower;
                            if (!mg && vl > 0 && m.l->mMalfBlockageFlag == false) ctx.check(std::fabs(have - want) <= 1e-3 * std::fabs(want) + 1e-6 * std::fabs(f) * V + 1e-7, fmt("load-power: switch %zu reports %.12g W of loads, they take %.12g W", k, have, want));
                            for (size_t j = 0; j < m.loads.size(); ++j) { ElLoad& q = *m.loads[j]; if (q.blown && !q.magic) ctx.check(q.base()->mCurrent <= 1e-9, fmt("fuse: load %zu of switch %zu draws %.9g A through a blown fuse", j, k, q.base()->mCurrent)); }
                            ctx.probe("settled_loads");
                        }
                    }
                }
                if (m.t == EL_SHORT && settled && m.shortMode >= 1 && m.shortMode <= 2 && std::fabs(Q[a] - Q[b]) > 1e-2 * V) {
                    const double have = m.shortMode == 1 ? std::fabs(f * (Q[a] - Q[b])) : std::fabs(f), blk = ElectNet::blockOf(l);
                    ctx.check(near(have, std::fabs(m.shortV) * blk, 1e-5, 1e-9), fmt("short: link %zu (mode %d) draws %.9g, commanded %.9g", k, m.shortMode, have, std::fabs(m.shortV) * blk));
                    ctx.probe("constant_short_settled");
                }
                // Power dissipated by a passive link is never negative.
                if ((m.sw() && !m.ovr) || m.t == EL_RES || m.t == EL_SEL || m.t == EL_SHORT) ctx.check(f * (Q[a] - Q[b]) >= -1e-9 * V, fmt("passive: link %zu (type %d) carries %.9g A from %.9g V to %.9g V", k, m.t, f, Q[a], Q[b]));
            }
            for (int i = 0; i < n; ++i) if (std::isfinite(sc[i])) {
                ctx.check(std::fabs(in[i] - out[i]) <= 1e-7 * sc[i] + 1e-9, fmt("kirchhoff: node %d receives %.12g A and gives %.12g A", i, in[i], out[i]));
                ctx.check(near(N.nodes[i].getInflux(), in[i], 1e-9, 1e-12 * sc[i]) && near(N.nodes[i].getOutflux(), out[i], 1e-9, 1e-12 * sc[i]),
                          fmt("node-flux: node %d reports %.12g A in and %.12g A out, its links carry %.12g and %.12g", i, N.nodes[i].getInflux(), N.nodes[i].getOutflux(), in[i], out[i]));
            }
        }
    }

    bool apply(const Op& o) {
        if (N.L.empty()) return false;
        const size_t k = std::abs(o.i(0)) % N.L.size(); ElLink& m = *N.L[k]; GunnsBasicLink* l = m.l.get();
        auto load = [&](int j) -> ElLoad* { return m.loads.empty() ? 0 : m.loads[std::abs(j) % m.loads.size()].get(); };
        if (o.kind == "cmd") {
            if (!m.sw()) return true;
            if (m.t == EL_SW2) m.u2().setPositionCommand(o.b(1)); else if (m.t == EL_SW1) m.u1().setSwitchCommandedClosed(o.b(1)); else m.ue().setSwitchCommandedClosed(o.b(1));
            ctx.fault("switch_command");
        } else if (o.kind == "reset") {
            if (!m.sw()) return true;
            if (m.t == EL_SW2) m.u2().mResetTripsCommand = true; else if (m.t == EL_SW1) m.u1().setTripReset(); else m.ue().setTripReset();
            ctx.fault("trip_reset");
        } else if (o.kind == "malf") {
            if (!m.sw()) return true; const bool f = o.b(2);
            auto both = [&](auto& u) { switch (o.i(1) % 4) { case 0: u.setMalfFailClosed(f); break; case 1: u.setMalfFailOpen(f); break; case 2: u.setMalfPosTripSetpoint(f, std::fabs(o.d(3))); break; default: u.setMalfFailResistance(f, std::fabs(o.d(3, 1))); break; } };
            if (m.t == EL_SW2) { if (o.i(1) % 2 == 0) m.u2().setMalfFailClosed(f); else m.u2().setMalfFailOpen(f); } else if (m.t == EL_SW1) both(m.u1()); else both(m.ue());
            ctx.fault("switch_malfunction");
        } else if (o.kind == "tripmalf") {
            // with the fault gone, the command that protects against over-current is sent again
            if (m.t == EL_SW1) { m.u1().mMalfIgnoreCurrentTrip = o.b(3); if (!o.b(3)) m.u1().mOverCurrentProtection = true; ctx.fault("trip_inhibit"); return true; }
            if (m.t == EL_SWE) { m.ue().mMalfIgnoreCurrentTrip = o.b(3); if (!o.b(3)) m.ue().mOverCurrentProtection = true; ctx.fault("trip_inhibit"); return true; }
            if (m.t != EL_SW2) return true;
            GunnsTripLogic* t[4] = {m.u2().getInputUnderVoltageTrip(), m.u2().getInputOverVoltageTrip(), m.u2().getPosOverCurrentTrip(), m.u2().getNegOverCurrentTrip()};
            GunnsTripLogic* q = t[std::abs(o.i(1)) % 4]; if (o.b(2)) q->mMalfInhibitTrip = o.b(3); else q->mMalfForceTrip = o.b(3);
            ctx.fault(o.b(2) ? "trip_inhibit" : "trip_force");
        } else if (o.kind == "limit") {
            if (m.t == EL_SW2) { GunnsElectSwitchUtil2& u = m.u2(); switch (o.i(1) % 4) { case 0: u.mPosOverCurrentTrip.setLimit(std::fabs(o.d(2))); break; case 1: u.mNegOverCurrentTrip.setLimit(-std::fabs(o.d(2))); break; case 2: u.mInputUnderVoltageTrip.setLimit(o.d(3)); break; default: u.mInputOverVoltageTrip.setLimit(o.d(3)); break; }
                // limits are ordered by the switch itself before the next update
                if (u.mInputUnderVoltageReset.getLimit() < u.mInputUnderVoltageTrip.getLimit()) u.mInputUnderVoltageReset.setLimit(u.mInputUnderVoltageTrip.getLimit());
                if (u.mInputOverVoltageReset.getLimit() > u.mInputOverVoltageTrip.getLimit()) u.mInputOverVoltageReset.setLimit(u.mInputOverVoltageTrip.getLimit()); }
            else if (m.t == EL_SW1) { if (o.i(1) % 2) m.u1().setPosTripLimit(std::fabs(o.d(2))); else m.u1().setNegTripLimit(-std::fabs(o.d(2))); }
            else if (m.t == EL_SWE) { if (o.i(1) % 2) m.ue().setPosTripLimit(std::fabs(o.d(2))); else m.ue().setNegTripLimit(-std::fabs(o.d(2))); }
            ctx.fault("trip_limit");
        } else if (o.kind == "sensor") {
            if (m.t != EL_SW2) return true;
            SensorAnalog& s = o.b(1) ? m.s2()->mInputVoltageSensor : m.s2()->mCurrentSensor;
            switch (o.i(2) % 3) { case 0: s.mMalfFailToFlag = o.b(3); s.mMalfFailToValue = o.d(4); break; case 1: s.mMalfBiasFlag = o.b(3); s.mMalfBiasValue = o.d(4); break; default: s.mMalfScaleFlag = o.b(3); s.mMalfScaleValue = o.d(4) / 10; break; }
            ctx.fault("sensor_malfunction");
        } else if (o.kind == "mode") { ElLoad* q = load(o.i(1)); if (!q) return true; q->mode = std::min(std::max(o.i(2), 0), 2); q->base()->setLoadOperMode(static_cast<UserLoadMode>(q->mode)); ctx.fault("load_mode");
        } else if (o.kind == "blow") { ElLoad* q = load(o.i(1)); if (!q) return true; q->malfBlow = o.b(2); q->base()->mMalfBlowFuse = o.b(2); if (!o.b(2)) { q->blown = false; q->base()->mFuseIsBlown = false; } ctx.fault(o.b(2) ? "fuse_malfunction" : "fuse_repair");
        } else if (o.kind == "loadmalf") { ElLoad* q = load(o.i(1)); if (!q || simple) return true;
            switch (o.i(2) % 3) { case 0: q->ovI = o.b(3); q->ovIv = std::fabs(o.d(4)); q->base()->setMalfOverrideCurrent(q->ovI, q->ovIv); break; case 1: q->ovP = o.b(3); q->ovPv = std::fabs(o.d(4)); q->base()->setMalfOverridePower(q->ovP, q->ovPv); break; default: q->magic = o.b(3); q->magicV = std::fabs(o.d(4)); q->base()->mMagicPowerFlag = q->magic; q->base()->mMagicPowerValue = q->magicV; break; }
            ctx.fault("load_malfunction");
        } else if (o.kind == "short") {
            GunnsShortUtil* s = m.sh(); if (!s) return true;
            int mode = std::min(std::max(o.i(1), 0), 5); if (simple && mode && mode < 3) mode = 5; if (m.t != EL_SHORT && simple && mode) mode = 5;
            if ((mode == 3 || mode == 4) && std::fabs(N.nodes[m.ports[0]].getPotential() - N.nodes[m.ports[1]].getPotential()) < 0.1) return true;
            double v = o.d(2, 1); if (mode == 5) v = std::max(0.05, std::fabs(v));
            if (m.shortMode == mode && m.shortV == v) return true;
            const bool fresh = !(m.shortMode == mode && std::fabs(m.shortV) == std::fabs(v));
            s->setMalfConstantPower(mode == 1, v); s->setMalfConstantCurrent(mode == 2, v); s->setMalfInitialPower(mode == 3, v); s->setMalfInitialCurrent(mode == 4, v); s->setMalfResistance(mode == 5, v);
            m.shortMode = mode; m.shortV = v; m.relatch = fresh; ctx.fault("short_circuit");
        } else if (o.kind == "src") {
            if (m.t == EL_POT) { m.s = o.d(1); static_cast<GunnsBasicPotential*>(l)->setSourcePotential(m.s); } else if (m.t == EL_SRC) { m.s = o.d(1) / 20; static_cast<GunnsBasicSource*>(l)->setFluxDemand(m.s); } else if (m.t == EL_SEL) { const int was = other(m); m.s = std::abs(o.i(1)) % 5; static_cast<GunnsElectSelector*>(l)->setSelector((int)m.s);
                if (was && !other(m)) l->mAdmittanceUpdate = true; }   // known finding selector-disconnect-stale, judged by the selector scenario
             else if (m.t == EL_RES && k >= (size_t)N.n) { m.g = std::fabs(o.d(1)) / 10; static_cast<GunnsBasicConductor*>(l)->setDefaultConductivity(m.g); }
            ctx.fault("source_step");
        } else if (o.kind == "block") { if (k < (size_t)N.n) return true; l->setMalfBlockage(o.b(1), std::min(1.0, std::max(0.0, o.d(2)))); ctx.fault("blockage");
        } else if (o.kind == "ovr") {
            if (m.t != EL_SW2 && m.t != EL_SW1) return true;
            m.ovr = o.b(1); m.ovrV = std::fabs(o.d(2)); if (m.t == EL_SW2) m.s2()->setLoadsOverride(m.ovr, m.ovrV); else m.s1()->setLoadsOverride(m.ovr, m.ovrV); ctx.fault("loads_override");
        } else if (o.kind == "port") {
            if (m.t == EL_POT || k < (size_t)N.n) return true; const int q = o.i(1) & 1, node = N.nd(o.d(2));
            if (m.ports[1 - q] == node || node == m.ports[q]) return true;
            if (q == 1 && !m.loads.empty() && node != N.n) { ctx.check(!l->setPort(1, node, "sim", true), fmt("port-rule: switch %zu has loads and let its ground port move to node %d", k, node)); return true; }
            if (l->setPort(q, node, "sim", true)) { m.ports[q] = node; if (!m.loads.empty() || m.t == EL_SHORT) moved = true; } ctx.fault("port_move");
        } else if (o.kind == "restart") { N.net.restart(); moved = true; for (auto& q : N.L) q->ports = q->defPorts; ctx.fault("restart");
        } else return false;
        return true;
    }
};

void gen(Rng& r, Plan& p, bool deep, bool simple) {
    const int n = r.irange(1, deep ? 8 : 6);
    p.set("nodes", n); p.set("island", r.irange(0, 2)); p.set("simple", simple); p.set("leak", r.logRange(1e-4, 1e-2)); p.set("minorLimit", 300);
    const double Vn = r.pick(std::vector<double>{28, 120, 160, 5});
    const int sources = r.irange(1, 2);
    for (int i = 0; i < sources; ++i) p.add("el", {(double)EL_POT, (double)n, (double)(i == 0 ? 0 : r.irange(0, n - 1)), r.logRange(1, 1e3), Vn * r.range(0.9, 1.1)});
    const int links = r.irange(2, deep ? 16 : 10);
    const int el0 = n + sources;
    std::vector<int> sw;
    for (int k = 0; k < links; ++k) {
        const double w = r.u(); const double a = k < n - 1 ? k : r.irange(0, n), b = k < n - 1 ? k + 1 : r.irange(0, n);
        int t = w < 0.4 ? EL_SW2 : w < 0.52 ? EL_SW1 : w < 0.64 ? EL_SWE : w < 0.72 ? EL_SEL : w < 0.8 ? EL_SHORT : w < 0.85 ? EL_SRC : EL_RES;
        if (t == EL_SRC) p.add("el", {(double)t, a, b, 1, r.range(-3, 3)});
        else if (t == EL_SEL) p.add("el", {(double)t, a, b, r.logRange(0.1, 100), (double)r.irange(0, 3)});
        else if (t == EL_RES || t == EL_SHORT) p.add("el", {(double)t, a, b, r.logRange(1e-2, 10)});
        else {
            const double im = r.logRange(0.3, 60);
            const bool uv = r.chance(0.4), ov = r.chance(0.3);
            p.add("el", {(double)t, a, b, r.logRange(0.005, 0.5), 0, (double)(r.chance(0.05) ? 0 : r.irange(1, 4)), uv ? Vn * r.range(0.5, 0.95) : 0.0, uv ? Vn * r.range(0.6, 1.0) : 0.0, ov ? Vn * r.range(1.0, 1.3) : 0.0, ov ? Vn * r.range(0.9, 1.2) : 0.0,
                         t == EL_SW2 && r.chance(0.15) ? 0.0 : im, t == EL_SW2 && r.chance(0.3) ? 0.0 : -r.logRange(0.05, 20), r.chance(0.8) ? 1.0 : 0.0});
            if (t != EL_SWE) sw.push_back(el0 + k);
        }
    }
    for (int k : sw) if (r.chance(0.65)) for (int j = r.irange(1, 3); j > 0; --j) {
        const bool cp = !simple && r.chance(0.4);
        const double base = cp ? r.logRange(1, 1500) : r.logRange(1, 200);
        p.add("load", {(double)k, simple ? 0.0 : Vn * r.range(0, 0.9), r.chance(0.05) ? 0.0 : base, cp ? base / 10 : base * 10, r.chance(0.4) ? r.logRange(0.2, 50) : 0.0, (double)r.irange(0, 2), r.u(), r.chance(0.2) ? r.range(0.3, 5) : 0.0, r.range(0, 2), cp ? 1.0 : 0.0});
    }
    double dt = 0.1; const int total = el0 + links;
    const int steps = r.irange(3, deep ? 40 : 18);
    for (int s = 0; s < steps; ++s) {
        for (int d = r.chance(0.3) ? 0 : r.irange(0, 3); d > 0; --d) {
            const double k = r.chance(0.7) && !sw.empty() ? r.pick(sw) : r.irange(0, total - 1);
            switch (r.irange(0, 14)) {
                case 0: case 1: p.add("cmd", {k, r.chance(0.7) ? 1.0 : 0.0}); break;
                case 2: p.add("reset", {k}); break;
                case 3: p.add("malf", {k, (double)r.irange(0, 3), r.chance(0.5) ? 1.0 : 0.0, r.logRange(0.1, 50)}); break;
                case 4: p.add("tripmalf", {k, (double)r.irange(0, 3), r.chance(0.5) ? 1.0 : 0.0, r.chance(0.6) ? 1.0 : 0.0}); break;
                case 5: p.add("limit", {k, (double)r.irange(0, 3), r.logRange(0.1, 50), Vn * r.range(0.5, 1.3)}); break;
                case 6: if (r.chance(0.5)) p.add("sensor", {k, r.chance(0.5) ? 1.0 : 0.0, (double)r.irange(0, 2), r.chance(0.5) ? 1.0 : 0.0, r.chance(0.5) ? r.range(-10, 10) : r.range(0, Vn)}); break;
                case 7: p.add("mode", {k, (double)r.irange(0, 2), (double)r.irange(0, 2)}); break;
                case 8: p.add("blow", {k, (double)r.irange(0, 2), r.chance(0.5) ? 1.0 : 0.0}); break;
                case 9: p.add("short", {(double)(r.chance(0.5) ? k : r.irange(0, total - 1)), r.chance(0.4) ? 0.0 : (double)r.irange(1, 5), r.chance(0.2) ? -r.logRange(0.1, 300) : r.logRange(0.1, 300)}); break;
                case 10: p.add("src", {(double)r.irange(n, total - 1), r.chance(0.2) ? 0.0 : Vn * r.range(0.3, 1.4)}); break;
                case 11: p.add("block", {k, r.chance(0.5) ? 1.0 : 0.0, r.u()}); break;
                case 12: if (r.chance(0.4)) p.add("ovr", {k, r.chance(0.5) ? 1.0 : 0.0, Vn * r.range(0.5, 1.1)}); break;
                case 13: if (!simple) p.add("loadmalf", {k, (double)r.irange(0, 2), (double)r.irange(0, 2), r.chance(0.6) ? 1.0 : 0.0, r.chance(0.1) ? 0.0 : r.logRange(0.1, 200)}); else p.add("port", {k, (double)r.irange(0, 1), (double)r.irange(0, n)}); break;
                default: if (r.chance(0.2)) p.add("restart"); break;
            }
        }
        if (r.chance(0.05)) dt = r.chance(0.3) ? 0.0 : r.logRange(0.01, 2);
        for (int q = simple ? 1 : r.irange(1, 4); q > 0; --q) p.add("step", {dt});
    }
}
void genTrip(Rng& r, Plan& p, bool deep)  { gen(r, p, deep, true); }
void genLoads(Rng& r, Plan& p, bool deep) { gen(r, p, deep, false); }

// A source feeds a selector whose positions lead to loads: every position, connected or not, must show at the nodes.
void genSel(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(3, 6);
    p.set("nodes", n); p.set("island", r.irange(0, 2)); p.set("leak", r.logRange(1e-4, 1e-2)); p.set("minorLimit", 50);
    p.add("el", {(double)EL_POT, (double)n, 0, r.logRange(1, 1e3), r.range(5, 160)});
    p.add("el", {(double)EL_SEL, 0, 1, r.logRange(0.1, 10), (double)r.irange(0, 3)});
    for (int i = 1; i < n; ++i) p.add("el", {(double)EL_RES, (double)i, (double)n, r.logRange(1e-2, 1)});
    for (int s = r.irange(3, deep ? 40 : 15); s > 0; --s) { p.add("sel", {(double)r.irange(-1, 5)}); if (r.chance(0.2)) p.add("src", {r.range(5, 160)}); if (r.chance(0.2)) p.add("block", {r.chance(0.5) ? 1.0 : 0.0, r.u()}); if (r.chance(0.1)) p.add("restart"); p.add("step", {0.1}); }
}
void runSel(const Plan& p, Ctx& ctx) {
    HsTap hs; E01 e(ctx); e.N.build(p); ElectNet& N = e.N;
    size_t sel = 0, pot = 0; for (size_t k = 0; k < N.L.size(); ++k) { if (N.L[k]->t == EL_SEL) sel = k; if (N.L[k]->t == EL_POT) pot = k; }
    if (N.L[sel]->t != EL_SEL || N.L[pot]->t != EL_POT) return;
    int stale = 0; double sg = 0;
    auto want = [&](int port, double g) { Circuit c(N.n); for (size_t k = 0; k < N.L.size(); ++k) { ElLink& m = *N.L[k]; if (k == sel) { if (port) c.g(m.ports[0], m.ports[port], g); } else e.stamp(c, m, e.linkG(m, false, 0, 0)); } return c.solve(); };
    for (auto& o : p.ops) {
        ElLink& m = *N.L[sel]; const int was = E01::other(m);
        if (o.kind == "sel") { m.s = o.i(0); static_cast<GunnsElectSelector*>(m.l.get())->setSelector(o.i(0)); ctx.fault("selector_position"); }
        else if (o.kind == "src") { N.L[pot]->s = o.d(0); static_cast<GunnsBasicPotential*>(N.L[pot]->l.get())->setSourcePotential(o.d(0)); ctx.fault("source_step"); }
        else if (o.kind == "block") { m.l->setMalfBlockage(o.b(0), std::min(1.0, std::max(0.0, o.d(1)))); ctx.fault("blockage"); }
        else if (o.kind == "restart") { N.net.restart(); stale = 0; ctx.fault("restart"); }
        if (o.kind == "sel" && was && !E01::other(m)) stale = was;
        if (o.kind == "sel" && E01::other(m)) stale = 0;
        if (o.kind != "step") continue;
        N.net.step(std::max(0.0, o.d(0))); ctx.advance(std::max(0.0, o.d(0)));
        const double g = e.linkG(m, false, 0, 0);
        const int port = E01::other(m); if (port) sg = g;
        std::vector<double> W = want(port, g), S = want(stale, sg);
        double V = 1e-6; for (double v : W) V = std::max(V, std::fabs(v));
        bool ok = true, old = stale > 0; std::string what;
        for (int i = 0; i < N.n; ++i) { const double q = N.nodes[i].getPotential(); if (std::fabs(q - W[i]) > 1e-7 * V + 1e-9) { if (ok) what = fmt("selector: with its selector at %d, node %d is at %.12g V, the circuit's solution is %.12g V", (int)m.s, i, q, W[i]); ok = false; } if (std::fabs(q - S[i]) > 1e-7 * V + 1e-9) old = false; }
        if (!ok && old) { ctx.finding("selector-disconnect-stale", "a GunnsElectSelector moved from a connected position to an unconnected one does not tell the solver, which keeps the old connection"); }
        else ctx.check(ok, what);
        ctx.probe(port ? "selector_connected" : "selector_open"); ctx.state(fmt("%d %d %d", port, stale, (int)ok)); ctx.logd("v", N.nodes[0].getPotential());
    }
}

void run(const Plan& p, Ctx& ctx) {
    HsTap hs;
    E01 e(ctx); e.simple = p.geti("simple", 1);
    e.N.build(p);
    for (auto& o : p.ops) { if (o.kind == "step") { e.step(std::max(0.0, o.d(0))); } else e.apply(o); }
}

Register e01({"E01", "distinct = a different circuit, trip setting or command and fault schedule; trivial = no switch ever trips and no load changes", "position and trip state of every switch with the number of trip rounds",
    {{"trips", 2, genTrip, run}, {"loads", 1, genLoads, run}, {"selector", 0.2, genSel, runSel}}, 20000, 1000000,
    {"GunnsElectUserLoadSwitch, GunnsElectUserLoadSwitch2, SwitchElect, switch and trip logic, user loads, fuses, shorts, selector, sensors, Gunns solver (real code)"},
    {"current and voltage sources: the basic potential and source links (real code) under commanded values"},
    {"Trip decisions are judged only where the reference value is further than 1e-5 from its limit", "Loads with an under-voltage limit, power or current laws are judged in steps where voltages no longer move"}});
} // namespace
void electRun(const Plan& p, Ctx& c) { run(p, c); }
void electGen(Rng& r, Plan& p, bool deep) { genLoads(r, p, deep); }
} // namespace dst
