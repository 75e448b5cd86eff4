// A seeded scheduler: while it is on, one thread of the program runs at a
// time, and which one goes on is decided at every mutex, condition, join and
// sleep, so that a run is a function of its seed; time is virtual, and threads
// waiting for each other for ever are noticed.
#ifndef SCHED_HPP
#define SCHED_HPP
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <random>
#include <string>
#include <vector>
namespace sched {
    enum St { READY, MUTEX, COND, JOIN, SLEEP, PRED, DONE };
    struct T {
        int id; pthread_t th; sem_t sem; St st;
        pthread_mutex_t *m; pthread_cond_t *c; long long deadline; bool timedout;
        T *joinee; std::function<bool()> pred;
        void *(*fn)(void *); void *arg; int prio;
        int tag;                          // on whose behalf; inherited by threads it starts
    };
    struct M { T *owner; int n; M() : owner(0), n(0) {} };
    extern bool on;
    extern long long now;                 // virtual time in ns
    extern thread_local T *self;
    extern std::vector<T *> all;
    extern void (*stuck)(const char *);   // deadlock or no end: does not return
    void begin(unsigned seed, int strategy);   // the caller becomes thread 0
    void end();                                // back to normal
    void yield();
    void wait_for(std::function<bool()> pred, long long timeout_ns = -1);
    void pause_for(long long d);
    inline bool managed() { return on && self; }
    inline int tag() { return self ? self->tag : 0; }
    inline int id() { return self ? self->id : -1; }
}
#ifdef SCHED_IMPL
namespace sched {
    bool on = false;
    long long now = 1700000000LL * 1000000000LL;
    thread_local T *self = 0;
    std::vector<T *> all;
    static std::map<pthread_mutex_t *, M> mx;
    static std::mt19937 rng;
    static int strat, low;
    static double pswitch;
    static long steps;
    static long long start;
    static std::vector<long> change;
    static void quit(const char *w) { fprintf(stderr, "scheduler: %s\n", w); _exit(97); }
    void (*stuck)(const char *) = quit;
    bool spurious = false;
    static bool enabled(T *t)
    {
        switch (t->st) {
        case READY: return true;
        case MUTEX: return mx[t->m].owner == 0;
        case JOIN: return t->joinee->st == DONE;
        case PRED: return t->pred();
        case SLEEP: return t->deadline <= now;
        case COND: return t->deadline >= 0 && t->deadline <= now;
        default: return false;
        }
    }
    static T *pick()
    {
        std::vector<T *> e;
        if (++steps > 3000000) stuck("no end");
        for (;;) {
            for (size_t i = 0; i < all.size(); i++) if (enabled(all[i])) e.push_back(all[i]);
            if (!e.empty()) break;
            T *b = 0;       // nothing can go on: time passes
            for (size_t i = 0; i < all.size(); i++)
                if (all[i]->st != DONE && all[i]->deadline >= 0 && (!b || all[i]->deadline < b->deadline)) b = all[i];
            if (!b) stuck("all threads wait");
            if (b->deadline > start + 300000 * 1000000000LL) stuck("nothing but time passes");
            if (b->deadline > now) now = b->deadline;
            b->deadline = -1; b->timedout = true;
            if (b->st != MUTEX) b->st = READY;
        }
        if (spurious && rng() % 50 == 0) {
            std::vector<T *> w;
            for (size_t i = 0; i < all.size(); i++) if (all[i]->st == COND) w.push_back(all[i]);
            if (!w.empty()) { T *t = w[rng() % w.size()]; t->st = READY; t->deadline = -1; e.push_back(t); }
        }
        if (strat == 2) {               // priorities, lowered at a few points
            T *b = e[0];
            for (size_t i = 0; i < e.size(); i++) if (e[i]->prio > b->prio) b = e[i];
            for (size_t i = 0; i < change.size(); i++) if (change[i] == steps) b->prio = --low;
            return b;
        }
        return e[rng() % e.size()];
    }
    static void go(T *t, bool wait)
    {
        T *me = self;
        if (t == me) return;
        sem_post(&t->sem);
        if (wait) while (sem_wait(&me->sem) != 0) ;
    }
    static T *next() { T *t = pick(); if (t->st == COND) t->timedout = true; t->st = READY; return t; }
    static void block() { go(next(), true); }
    void yield()
    {
        if (!managed()) return;
        if (strat != 2 && (rng() % 1000) >= pswitch * 1000) return;
        block();
    }
    void wait_for(std::function<bool()> pred, long long timeout)
    {
        self->pred = pred; self->st = PRED; self->timedout = false;
        self->deadline = timeout < 0 ? -1 : now + timeout;
        block();
        self->pred = std::function<bool()>(); self->deadline = -1;
    }
    static T *make()
    {
        T *t = new T;
        t->id = all.size(); t->st = READY; t->deadline = -1; t->timedout = false; t->m = 0; t->c = 0; t->joinee = 0; t->tag = self ? self->tag : 0;
        t->prio = 1000 + rng() % 1000;
        sem_init(&t->sem, 0, 0);
        all.push_back(t);
        return t;
    }
    void begin(unsigned seed, int strategy)
    {
        rng.seed(seed); strat = strategy; start = now = 1700000000LL * 1000000000LL; steps = 0; low = 999;
        pswitch = strategy == 0 ? .15 : 1;
        change.clear();
        for (int i = 0; i < 3; i++) change.push_back(1 + rng() % 200);
        all.clear(); mx.clear();
        self = make(); self->th = pthread_self();
        on = true;
    }
    void end()
    {
        on = false; self = 0;
    }
    template<class F> static F real(const char *n, const char *v = 0)
    { return (F) (v ? dlvsym(RTLD_NEXT, n, v) : dlsym(RTLD_NEXT, n)); }
    static void lock(pthread_mutex_t *m)
    {
        for (;;) {
            M &x = mx[m];
            if (x.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.n++; return; }
            if (!x.owner) { x.owner = self; x.n = 1; return; }
            self->m = m; self->st = MUTEX; block();
        }
    }
    static int cwait(pthread_cond_t *c, pthread_mutex_t *m, long long deadline)
    {
        yield();
        M &x = mx[m];
        int n = x.n;
        x.owner = 0; x.n = 0;
        self->c = c; self->st = COND; self->deadline = deadline; self->timedout = false;
        block();
        bool to = self->timedout;
        self->deadline = -1; self->c = 0;
        lock(m); mx[m].n = n;
        return to ? ETIMEDOUT : 0;
    }
    static void wake(pthread_cond_t *c, bool allw)
    {
        yield();
        std::vector<T *> w;
        for (size_t i = 0; i < all.size(); i++) if (all[i]->st == COND && all[i]->c == c) w.push_back(all[i]);
        if (w.empty()) return;
        if (!allw) { T *t = w[rng() % w.size()]; w.assign(1, t); }
        for (size_t i = 0; i < w.size(); i++) { w[i]->st = READY; w[i]->deadline = -1; }
    }
    static long long ns(const struct timespec *t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
    void pause_for(long long d)
    { yield(); self->st = SLEEP; self->deadline = now + d; self->timedout = false; block(); self->deadline = -1; }
    static void *tramp(void *p)
    {
        T *t = (T *) p;
        self = t;
        while (sem_wait(&t->sem) != 0) ;
        void *r = t->fn(t->arg);
        t->st = DONE;
        go(next(), false);
        self = 0;
        return r;
    }
}
extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept
{
    typedef int (*F)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    static F f = sched::real<F>("pthread_create");
    if (!sched::managed()) return f(th, a, fn, arg);
    sched::T *t = sched::make();
    t->fn = fn; t->arg = arg;
    int r = f(th, a, sched::tramp, t);
    if (r) { t->st = sched::DONE; return r; }
    t->th = *th;
    sched::yield();
    return 0;
}
int pthread_join(pthread_t th, void **ret)
{
    typedef int (*F)(pthread_t, void **);
    static F f = sched::real<F>("pthread_join");
    if (sched::managed()) {
        sched::T *t = 0;
        for (size_t i = 0; i < sched::all.size(); i++) if (pthread_equal(sched::all[i]->th, th)) t = sched::all[i];
        if (t && t->st != sched::DONE) { sched::self->joinee = t; sched::self->st = sched::JOIN; sched::block(); }
    }
    return f(th, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    typedef int (*F)(pthread_mutex_t *);
    static F f = sched::real<F>("pthread_mutex_lock");
    if (!sched::managed()) return f(m);
    sched::yield(); sched::lock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    typedef int (*F)(pthread_mutex_t *);
    static F f = sched::real<F>("pthread_mutex_trylock");
    if (!sched::managed()) return f(m);
    sched::yield();
    sched::M &x = sched::mx[m];
    if (x.owner && !(x.owner == sched::self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
    sched::lock(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    typedef int (*F)(pthread_mutex_t *);
    static F f = sched::real<F>("pthread_mutex_unlock");
    if (!sched::managed()) return f(m);
    sched::M &x = sched::mx[m];
    if (x.owner != sched::self) return EPERM;
    if (--x.n == 0) x.owner = 0;
    sched::yield();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept
{
    typedef int (*F)(pthread_mutex_t *);
    static F f = sched::real<F>("pthread_mutex_destroy");
    if (sched::managed()) {
        std::map<pthread_mutex_t *, sched::M>::iterator it = sched::mx.find(m);
        if (it != sched::mx.end()) {
            if (it->second.owner) sched::stuck("a locked mutex is destroyed");
            sched::mx.erase(it);
        }
    }
    return f(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    typedef int (*F)(pthread_cond_t *, pthread_mutex_t *);
    static F f = sched::real<F>("pthread_cond_wait", "GLIBC_2.3.2");
    if (!sched::managed()) return f(c, m);
    return sched::cwait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    typedef int (*F)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    static F f = sched::real<F>("pthread_cond_timedwait", "GLIBC_2.3.2");
    if (!sched::managed()) return f(c, m, t);
    return sched::cwait(c, m, sched::ns(t));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
    typedef int (*F)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    static F f = sched::real<F>("pthread_cond_clockwait");
    if (!sched::managed()) return f(c, m, k, t);
    return sched::cwait(c, m, sched::ns(t));
}
int pthread_cond_signal(pthread_cond_t *c) noexcept
{
    typedef int (*F)(pthread_cond_t *);
    static F f = sched::real<F>("pthread_cond_signal", "GLIBC_2.3.2");
    if (!sched::managed()) return f(c);
    sched::wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept
{
    typedef int (*F)(pthread_cond_t *);
    static F f = sched::real<F>("pthread_cond_broadcast", "GLIBC_2.3.2");
    if (!sched::managed()) return f(c);
    sched::wake(c, true);
    return 0;
}
int clock_gettime(clockid_t k, struct timespec *t) noexcept
{
    typedef int (*F)(clockid_t, struct timespec *);
    static F f = sched::real<F>("clock_gettime");
    if (!sched::managed()) return f(k, t);
    t->tv_sec = sched::now / 1000000000LL; t->tv_nsec = sched::now % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) noexcept
{
    typedef int (*F)(struct timeval *, void *);
    static F f = sched::real<F>("gettimeofday");
    if (!sched::managed()) return f(t, z);
    t->tv_sec = sched::now / 1000000000LL; t->tv_usec = sched::now / 1000 % 1000000;
    return 0;
}
int usleep(useconds_t n)
{
    typedef int (*F)(useconds_t);
    static F f = sched::real<F>("usleep");
    if (!sched::managed()) return f(n);
    sched::pause_for(n * 1000LL);
    return 0;
}
int nanosleep(const struct timespec *d, struct timespec *r)
{
    typedef int (*F)(const struct timespec *, struct timespec *);
    static F f = sched::real<F>("nanosleep");
    if (!sched::managed()) return f(d, r);
    sched::pause_for(sched::ns(d));
    return 0;
}
int sched_yield() noexcept
{
    typedef int (*F)();
    static F f = sched::real<F>("sched_yield");
    if (!sched::managed()) return f();
    sched::yield();
    return 0;
}
}
#endif
#endif
