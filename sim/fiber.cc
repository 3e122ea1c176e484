#include "fiber.hh"
#include <cerrno>
#include <exception>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace dst {
namespace { struct Eh { void* caught; unsigned uncaught; }; Eh* eh() { return reinterpret_cast<Eh*>(__cxxabiv1::__cxa_get_globals()); } }

Threads* Threads::cur = 0;
int      Threads::quiet = 0;
bool     Threads::strings = false;

Threads::Threads(Ctx& c, const Plan& plan) : schedule(1469598103934665603ULL), ctx(c), f(), running(-1), last(0), total(0), strongCount(0), since(0), nSwitch(0), clockNs(0), pre(), nextPre(0), owner(), failure(), failed(false), violation(false), forced(-1) {
    for (auto& o : plan.ops) if (o.kind == "preempt") pre.push_back(o);
    cur = this; quiet = 0; strings = false;
    seams().lock    = [this](pthread_mutex_t* m) { return mLock(m); };
    seams().trylock = [this](pthread_mutex_t* m) { return mTry(m); };
    seams().unlock  = [this](pthread_mutex_t* m) { return mUnlock(m); };
    seams().sleep   = [this](long ns) { sleepNs(ns); return 0L; };
}
Threads::~Threads() {
    cur = 0;
    seams().lock = nullptr; seams().trylock = nullptr; seams().unlock = nullptr; seams().sleep = nullptr;
}

int Threads::spawn(const std::string& name, const std::function<void()>& body) {
    f.emplace_back(new Fiber{name, body, ucontext_t(), std::vector<char>(), Fiber::READY, 0, 0, nullptr, 0, 0, false});
    Fiber* x = f.back().get();
    x->stack.resize(256 * 1024);
    getcontext(&x->uc);
    x->uc.uc_stack.ss_sp = x->stack.data(); x->uc.uc_stack.ss_size = x->stack.size(); x->uc.uc_link = 0;
    const uint64_t p = reinterpret_cast<uint64_t>(this);
    makecontext(&x->uc, reinterpret_cast<void (*)()>(&Threads::trampoline), 2, static_cast<unsigned>(p), static_cast<unsigned>(p >> 32));
    return static_cast<int>(f.size()) - 1;
}

void Threads::trampoline(unsigned lo, unsigned hi) {
    Threads* t = reinterpret_cast<Threads*>(static_cast<uint64_t>(lo) | (static_cast<uint64_t>(hi) << 32));
    Fiber* me = t->f[t->running].get();
    try { me->body(); }
    catch (const Violation& v) { t->failed = t->violation = true; t->failure = v.what; }
    catch (const std::exception& e) { t->failed = true; t->failure = "exception-escaped: thread " + me->name + " ended by " + e.what(); }
    catch (...) { t->failed = true; t->failure = "exception-escaped: thread " + me->name + " ended by an unknown exception"; }
    me->st = Fiber::DONE;
    t->switchOut();
}

void Threads::switchOut() {
    Fiber* me = f[running].get();
    Eh* e = eh();
    me->caught = e->caught; me->uncaught = e->uncaught;
    running = -1;
    swapcontext(&me->uc, &mainUc);
    // resumed
    e = eh();
    e->caught = me->caught; e->uncaught = me->uncaught;
}

void Threads::resume(int i) {
    if (i != last) { ++nSwitch; schedule = (schedule ^ (static_cast<uint64_t>(i) + 31u * static_cast<uint64_t>(total))) * 1099511628211ULL; }
    last = running = i;
    Eh* e = eh(); Eh keep = *e;
    e->caught = 0; e->uncaught = 0;
    swapcontext(&mainUc, &f[i]->uc);
    e = eh(); *e = keep;
}

void Threads::advanceTo(long t) {
    if (t <= clockNs) return;
    const long s0 = clockNs / 1000000000L;
    ctx.advance((t - clockNs) * 1e-9);
    clockNs = t;
    seams().clock += clockNs / 1000000000L - s0;
}

int Threads::pick() {
    const int n = static_cast<int>(f.size());
    for (auto& x : f) {
        if (x->st == Fiber::BLOCKED && owner.find(x->on) == owner.end()) x->st = Fiber::READY;
        if (x->st == Fiber::WAITING && x->pred()) x->st = Fiber::READY;
        if (x->st == Fiber::SLEEPING && x->wake <= clockNs) x->st = Fiber::READY;
    }
    if (forced >= 0) {
        const int want = forced; forced = -1;
        // A stalled thread: time passes until the sleeper it was preempted for wakes.
        if (f[want]->st == Fiber::SLEEPING) {
            advanceTo(f[want]->wake);
            for (auto& x : f) if (x->st == Fiber::SLEEPING && x->wake <= clockNs) x->st = Fiber::READY;
            ctx.fault("thread_stall");
        }
        for (int k = 0; k < n; ++k) { const int i = (want + k) % n; if (f[i]->st == Fiber::READY) return i; }
    }
    for (int k = 0; k < n; ++k) { const int i = (last + k) % n; if (f[i]->st == Fiber::READY) return i; }
    long soon = -1;
    for (auto& x : f) if (x->st == Fiber::SLEEPING && (soon < 0 || x->wake < soon)) soon = x->wake;
    if (soon >= 0) {
        advanceTo(soon);
        return pick();
    }
    return -1;
}

void Threads::run() {
    for (;;) {
        const int i = pick();
        if (i < 0) break;
        resume(i);
        if (failed) { const std::string w = failure; if (violation) throw Violation{w}; ctx.violate(w); }
        if (total > 5000000) ctx.violate("livelock: threads made no end of progress within 5 million yield points");
    }
    for (auto& x : f) if (x->st != Fiber::DONE) {
        std::string w = "deadlock:";
        for (auto& y : f) if (y->st != Fiber::DONE) w += " " + y->name + (y->st == Fiber::BLOCKED ? " waits for a mutex" : " waits") ;
        ctx.violate(w);
    }
    cur = this;
}

void Threads::point(bool strong) {
    Threads* t = cur;
    if (!t || t->running < 0 || quiet > 0) return;
    ++t->total;
    if (t->total > 5000000) { t->pass(); return; }
    if (t->nextPre >= t->pre.size()) return;
    const Op& o = t->pre[t->nextPre];
    if (o.b(2) && !strong) return;         // counts only strong points
    if (++t->since < o.d(0, 1)) return;
    t->since = 0; ++t->nextPre;
    const int want = o.i(1) % static_cast<int>(t->f.size());
    if (want == t->running) return;
    t->forced = want;
    t->ctx.fault("preemption");
    t->switchOut();
}
void Threads::pass() { if (running < 0) return; forced = (running + 1) % static_cast<int>(f.size()); switchOut(); }
void Threads::sleepNs(long ns) { if (running < 0) return; Fiber* x = f[running].get(); x->st = Fiber::SLEEPING; x->wake = clockNs + std::max(1L, ns); switchOut(); }
void Threads::wait(const std::function<bool()>& pred) { if (running < 0) return; Fiber* x = f[running].get(); if (pred()) return; x->st = Fiber::WAITING; x->pred = pred; switchOut(); }

int Threads::mLock(pthread_mutex_t* m) {
    if (running < 0) return 0;
    point(true);
    while (owner.find(m) != owner.end()) {
        ctx.probe("mutex_contended");
        Fiber* x = f[running].get();
        x->st = Fiber::BLOCKED; x->on = m;
        switchOut();
    }
    owner[m] = running;
    point(true);
    return 0;
}
int Threads::mTry(pthread_mutex_t* m) {
    if (running < 0) return 0;
    point(true);
    if (owner.find(m) != owner.end()) { ctx.fault("trylock_conflict"); return EBUSY; }
    owner[m] = running;
    point(true);
    return 0;
}
int Threads::mUnlock(pthread_mutex_t* m) {
    if (running < 0) return 0;
    point(true);
    auto it = owner.find(m);
    if (it == owner.end() || it->second != running) ctx.violate("mutex: " + f[running]->name + " unlocked a mutex it does not hold");
    owner.erase(it);
    point(true);
    return 0;
}

void genPreempts(Rng& r, Plan& p, int threads, bool deep) {
    const int n = r.irange(0, deep ? 60 : 30);
    const double style = r.u();
    const double hi = r.logRange(10, 3000);
    for (int i = 0; i < n; ++i) {
        const bool strong = style < 0.3 ? true : style < 0.6 ? false : r.chance(0.5);
        p.add("preempt", {std::floor(strong ? r.logRange(1, 12) : r.logRange(1, hi)), static_cast<double>(r.irange(0, threads - 1)), strong ? 1.0 : 0.0});
    }
}
} // namespace dst
extern "C" void __sanitizer_cov_trace_pc(void) { dst::Threads::point(false); }
// Memory accesses of the lock-free sources (compiled with -fsanitize=thread, without its runtime).
#define DST_TSAN(name) extern "C" void __tsan_##name(void*) { dst::Threads::point(false); }
#define DST_TSAN_RW(n) DST_TSAN(read##n) DST_TSAN(write##n) DST_TSAN(unaligned_read##n) DST_TSAN(unaligned_write##n)
DST_TSAN_RW(1) DST_TSAN_RW(2) DST_TSAN_RW(4) DST_TSAN_RW(8) DST_TSAN_RW(16)
DST_TSAN(vptr_read) DST_TSAN(func_entry)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) { dst::Threads::point(false); }
void __tsan_read_range(void*, unsigned long) { dst::Threads::point(false); }
void __tsan_write_range(void*, unsigned long) { dst::Threads::point(false); }
// A string assignment is an access to shared memory too (where asked, one of the strong kind): once before and once after it.
void* __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(void*, unsigned long, unsigned long, const char*, unsigned long);
void* __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(void* s, unsigned long a, unsigned long b, const char* c, unsigned long n) {
    dst::Threads::point(dst::Threads::strings);
    void* r = __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(s, a, b, c, n);
    dst::Threads::point(dst::Threads::strings);
    return r;
}
void __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(void*, const void*);
void __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(void* s, const void* o) {
    dst::Threads::point(dst::Threads::strings);
    __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(s, o);
    dst::Threads::point(dst::Threads::strings);
}
}
