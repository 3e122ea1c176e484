// Simulated data network between distributed simulations: last-value transport with latency, jitter,
// loss, duplication, reordering and partitions, all decided by the plan.
#ifndef DST_WIRE_HH
#define DST_WIRE_HH
#include "common.hh"
#include <deque>
namespace dst {

template <class T> class Wire {
  public:
    struct Item { long due; long seq; T msg; };
    Wire() : latency(1), jitter(0), loss(0), dupl(0), reorder(0), partUntil(-1), seq(0), lastSeq(-1), rng(1) {}
    int latency, jitter; double loss, dupl; int reorder; long partUntil; long seq, lastSeq;
    Rng rng; std::deque<Item> q;
    void send(long now, const T& m, Ctx& ctx) {
        ++seq;
        if (now < partUntil) { ctx.fault("partition_drop"); return; }
        if (loss > 0 && rng.chance(loss)) { ctx.fault("message_loss"); return; }
        long due = now + latency;
        if (jitter > 0) { const int j = rng.irange(0, jitter); if (j) ctx.fault("message_delay"); due += j; }
        if (!reorder && !q.empty() && q.back().due > due) due = q.back().due;      // in-order transport
        q.push_back(Item{due, seq, m});
        if (dupl > 0 && rng.chance(dupl)) { ctx.fault("message_duplicate"); q.push_back(Item{due + (reorder ? rng.irange(0, 6) : 0), seq, m}); }
    }
    /// Latest value delivered by now; messages in order of due time.
    bool receive(long now, T& out, Ctx& ctx) {
        bool got = false; std::deque<Item> keep;
        std::stable_sort(q.begin(), q.end(), [](const Item& a, const Item& b) { return a.due < b.due; });
        for (auto& i : q) { if (i.due <= now) { out = i.msg; got = true; if (i.seq < lastSeq) ctx.fault("message_reorder"); lastSeq = std::max(lastSeq, i.seq); } else keep.push_back(i); }
        q.swap(keep);
        return got;
    }
};

/// Operations common to every wire: {dir, frame-window end, value}.
inline void genWire(Rng& r, Plan& p, int frames, int maxLat, bool reorder) {
    for (int d = 0; d < 2; ++d) p.add("latency", {(double)d, 0.0, (double)r.irange(0, r.chance(0.6) ? std::min(3, maxLat) : maxLat)});
    const int n = r.irange(0, 6);
    for (int i = 0; i < n; ++i) {
        const double at = r.irange(0, frames), d = r.irange(0, 1), u = r.u();
        if (u < 0.2) p.add("latency", {d, at, (double)r.irange(0, maxLat)});
        else if (u < 0.4) p.add("jitter", {d, at, (double)r.irange(0, 5)});
        else if (u < 0.6) p.add("loss", {d, at, r.chance(0.3) ? r.range(0.5, 1) : r.range(0, 0.5)});
        else if (u < 0.75) p.add("dupl", {d, at, r.range(0, 0.5)});
        else if (u < 0.95) p.add("part", {d, at, (double)r.irange(1, 40)});
        else if (reorder) p.add("reorder", {d, at, 1.0});
    }
}
template <class T> bool wireOp(const Op& o, long now, Wire<T>* w) {
    if (o.i(1) != now) return false;
    Wire<T>& x = w[std::abs(o.i(0)) % 2];
    if (o.kind == "latency") x.latency = std::max(0, o.i(2)); else if (o.kind == "jitter") x.jitter = std::max(0, o.i(2));
    else if (o.kind == "loss") x.loss = o.d(2); else if (o.kind == "dupl") x.dupl = o.d(2); else if (o.kind == "reorder") x.reorder = o.i(2);
    else if (o.kind == "part") { x.partUntil = now + o.i(2); } else return false;
    return true;
}
template <class T> void wireQuiet(Wire<T>& x) { x.jitter = 0; x.loss = 0; x.dupl = 0; x.reorder = 0; x.partUntil = -1; x.latency = std::min(x.latency, 12); }

} // namespace dst
#endif
