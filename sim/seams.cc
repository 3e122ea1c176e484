#include "seams.hh"
namespace dst { Seams& seams() { static Seams s; return s; } }
using dst::seams;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)    { return seams().lock ? seams().lock(m) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return seams().trylock ? seams().trylock(m) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)  { return seams().unlock ? seams().unlock(m) : __real_pthread_mutex_unlock(m); }
time_t __wrap_time(time_t* t) { time_t v = seams().clock; if (t) *t = v; return v; }
int __real_rand(void);
int __wrap_rand(void) { return seams().rand ? seams().rand() : __real_rand(); }
int __wrap_nanosleep(const struct timespec* r, struct timespec*) {
    if (seams().sleep) seams().sleep(r->tv_sec * 1000000000L + r->tv_nsec);
    return 0;
}
}
