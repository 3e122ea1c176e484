// Simulated threads: fibers of one OS thread.  The plan decides every preemption.
#ifndef DST_FIBER_HH
#define DST_FIBER_HH
#include "dst.hh"
#include "seams.hh"
#include <ucontext.h>
#include <memory>

namespace dst {

/// A run's threads.  A thread runs until it blocks, sleeps, ends, or a "preempt" op of the plan takes effect
/// at one of its yield points: mutex operations, explicit points, and every basic block of the instrumented
/// library sources.
class Threads {
  public:
    Threads(Ctx& ctx, const Plan& plan);
    ~Threads();
    int  spawn(const std::string& name, const std::function<void()>& body);
    /// Runs all threads to their end.  Rethrows what a thread threw; a deadlock is a violation.
    void run();
    /// Yield points.
    static void point(bool strong);
    static bool inThread() { return cur && cur->running >= 0; }
    static int  self() { return cur ? cur->running : -1; }
    static Threads* current() { return cur; }
    /// Lets another runnable thread go first.
    void pass();
    void sleepNs(long ns);
    /// Blocks until the predicate holds (polled by the scheduler).
    void wait(const std::function<bool()>& pred);
    long yields() const { return total; }
    long switches() const { return nSwitch; }
    /// While alive no yield point switches (for oracle code inside a thread).
    struct Quiet { Quiet() { ++quiet; } ~Quiet() { --quiet; } };
    uint64_t schedule;        ///< hash of the interleaving actually executed
  private:
    struct Fiber {
        std::string name; std::function<void()> body; ucontext_t uc; std::vector<char> stack;
        enum St { READY, BLOCKED, SLEEPING, WAITING, DONE } st; pthread_mutex_t* on; long wake; std::function<bool()> pred;
        void* caught; unsigned uncaught; bool tookViolation;
    };
    static Threads* cur;
    static int      quiet;
    static bool     strings;   // string assignments count as strong points
    Ctx&            ctx;
    std::vector<std::unique_ptr<Fiber> > f;
    ucontext_t      mainUc;
    int             running, last;
    long            total, strongCount, since, nSwitch, clockNs;
    std::vector<Op> pre;
    size_t          nextPre;
    std::map<pthread_mutex_t*, int> owner;
    std::string     failure; bool failed; bool violation;
    static void trampoline(unsigned lo, unsigned hi);
    void switchOut();
    void resume(int i);
    void advanceTo(long t);
    int  pick();
    int  mLock(pthread_mutex_t* m), mTry(pthread_mutex_t* m), mUnlock(pthread_mutex_t* m);
    int  forced;
};

/// Adds preemptions for a run of about 'span' yield points.
void genPreempts(Rng& r, Plan& p, int threads, bool deep);

} // namespace dst
#endif
