// Seams to the operating system: mutexes, clock, sleeping.
#ifndef DST_SEAMS_HH
#define DST_SEAMS_HH
#include <pthread.h>
#include <time.h>
#include <functional>
namespace dst {
struct Seams {
    /// Simulated mutex operations; unset: the real ones.
    std::function<int(pthread_mutex_t*)> lock, trylock, unlock;
    std::function<long(long ns)>         sleep;   ///< simulated nanosleep
    long                                 clock;   ///< simulated time(); used when >= 0
    std::function<int()>                 rand;    ///< simulated rand(); unset: the real one
    Seams() : lock(), trylock(), unlock(), sleep(), clock(1700000000L), rand() {}
};
Seams& seams();
struct SeamGuard { ~SeamGuard() { seams() = Seams(); } };
}
#endif
