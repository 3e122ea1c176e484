// Deterministic simulation kernel: seeded PRNG, plan (schedule + fault trace), run context,
// swarm runner, minimiser and replay.  No wall clock, address or thread identity reaches a run.
#ifndef DST_HH
#define DST_HH
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <stdexcept>

namespace dst {

/// xoshiro256** seeded by splitmix64: the only source of randomness in the simulator.
class Rng {
  public:
    explicit Rng(uint64_t seed) { for (int i = 0; i < 4; ++i) s[i] = mix(seed); }
    uint64_t next();
    /// uniform in [0,1)
    double   u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double   range(double a, double b) { return a + (b - a) * u(); }
    /// log-uniform in [a,b], a > 0
    double   logRange(double a, double b) { return std::exp(range(std::log(a), std::log(b))); }
    /// uniform integer in [a,b]
    int      irange(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
    bool     chance(double p) { return u() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  private:
    static uint64_t mix(uint64_t& x);
    uint64_t s[4];
};

/// One event of the schedule: a client operation, a scheduling decision or a fault.
struct Op {
    std::string         kind;
    std::vector<double> a;
    Op() {}
    Op(const std::string& k, const std::vector<double>& v = std::vector<double>()) : kind(k), a(v) {}
    double d(size_t i, double def = 0.0) const { return i < a.size() ? a[i] : def; }
    int    i(size_t i_, int def = 0) const { return i_ < a.size() ? static_cast<int>(a[i_]) : def; }
    bool   b(size_t i_) const { return i_ < a.size() && a[i_] != 0.0; }
};

/// A complete, self-contained description of one execution.
struct Plan {
    std::string                                      scenario;
    uint64_t                                         seed;
    std::vector<std::pair<std::string, double> >     cfg;
    std::vector<Op>                                  ops;
    Plan() : scenario(), seed(0), cfg(), ops() {}
    void   set(const std::string& k, double v);
    double get(const std::string& k, double def = 0.0) const;
    int    geti(const std::string& k, int def = 0) const { return static_cast<int>(get(k, def)); }
    void   add(const std::string& kind, const std::vector<double>& a = std::vector<double>()) { ops.push_back(Op(kind, a)); }
    std::string text() const;
    static bool parse(const std::string& text, Plan& out);
};

/// Thrown by Ctx::violate: unwinds out of the run.
struct Violation { std::string what; };

/// Everything one run records.
class Ctx {
  public:
    explicit Ctx(bool verbose_) : hash(1469598103934665603ULL), events(0), simTime(0.0), verbose(verbose_), steps(0) {}
    /// Event log: feeds the run hash (never wall-clock or addresses).
    void log(const std::string& s);
    void logd(const char* tag, double v);
    /// A fault that actually took effect.
    void fault(const std::string& kind, int n = 1) { faults[kind] += n; }
    /// A rare branch or corner that was reached.
    void probe(const std::string& name, int n = 1) { probes[name] += n; }
    /// An abstract state for the distinct-states measure.
    void state(const std::string& s) { states.insert(hashStr(s)); }
    void state(uint64_t h) { states.insert(h); }
    void advance(double dt) { simTime += dt; ++steps; }
    /// Reports a broken property and ends the run.
    void violate(const std::string& what);
    /// A violation identified by key: counted instead of raised when known_findings.txt lists it.
    void finding(const std::string& key, const std::string& what);
    void check(bool ok, const std::string& what) { if (muted) return; ++checksDone; if (!ok) violate(what); }
    bool                          muted = false;     ///< a run made only for its trace: nothing is judged
    static uint64_t hashStr(const std::string& s);
    uint64_t                      hash;
    uint64_t                      events;
    double                        simTime;
    bool                          verbose;
    uint64_t                      steps;
    uint64_t                      checksDone = 0;
    std::map<std::string, long>   faults;
    std::map<std::string, long>   probes;
    std::set<uint64_t>            states;
};

/// printf-style string.
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Scenario {
    const char*                                 name;
    double                                      weight;   ///< relative share of runs
    std::function<void(Rng&, Plan&, bool deep)> generate; ///< deep: thorough tier
    std::function<void(const Plan&, Ctx&)>      execute;
};

struct Property {
    const char*              id;
    const char*              rule;        ///< what counts as a distinct, non-trivial evaluation
    const char*              stateMeasure;
    std::vector<Scenario>    scenarios;
    int                      quickRuns;
    int                      thoroughRuns;
    std::vector<std::string> realParts;
    std::vector<std::string> stubParts;
    std::vector<std::string> assumptions;
};

/// Properties register themselves at static initialisation.
std::vector<Property>& registry();
struct Register { explicit Register(const Property& p) { registry().push_back(p); } };

int dstMain(int argc, char** argv, const std::vector<Property>& props);

/// Runs one plan in this process; returns the violation text or "".
std::string runPlan(const Property& p, const Plan& plan, Ctx& ctx);

} // namespace dst
#endif
