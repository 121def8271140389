/* Deterministic scheduler: one thread runs at a time; at every atomic
 * operation, futex call, yield and spin iteration a seeded choice decides who
 * runs next.  Time is virtual: it advances a little at each point and jumps to
 * the earliest deadline when everybody sleeps. */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <stdbool.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/epoll.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include "vpsched.h"

#define MAXT 64
enum { FREE, RUNNABLE, BLOCKED, POLLING, WAITALL };
struct thr {
    int state;
    sem_t sem;
    const void *futex;
    uint64_t deadline;        /* 0: none */
    bool timedout;
    int prio;
};
static struct thr T[MAXT];
static int nthr;
static __thread int me = -1;
static int mode, param;
static uint64_t rng;
uint64_t vp_vtime_us, vp_npoints, vp_nswitches;
uint64_t vp_max_points = 3000000;
int vp_sched_on;
void (*vp_on_deadlock)(const char *why);
static int spins;
/* mode 2: a plan of preemptions (at point p, run thread t) */
struct vp_plan vp_plan[8];
int vp_plan_n;
static int plan_i;
uint32_t vp_mask[VP_MAXREC];
static uint64_t chg[16];

static uint64_t rnd(void)
{
    rng += 0x9E3779B97F4A7C15ULL;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static void die(const char *why)
{
    vp_sched_on = 0;
    if (vp_on_deadlock) vp_on_deadlock(why);
    _exit(42);
}

static int pick(bool other)
{
    int c[MAXT], n = 0;
    for (int i = 0; i < nthr; i++) {
        if (T[i].state == RUNNABLE && !(other && i == me)) c[n++] = i;
    }
    if (!n) return -1;
    if (mode == 2) {
        /* round robin after the current thread: deterministic */
        for (int i = 0; i < n; i++) if (c[i] > me) return c[i];
        return c[0];
    }
    if (mode == 1) {
        int best = c[0];
        for (int i = 1; i < n; i++) if (T[c[i]].prio > T[best].prio) best = c[i];
        return best;
    }
    return c[rnd() % n];
}

static void wake_expired(void)
{
    for (int i = 0; i < nthr; i++) {
        if ((T[i].state == BLOCKED || T[i].state == POLLING) && T[i].deadline && T[i].deadline <= vp_vtime_us) {
            T[i].state = RUNNABLE;
            T[i].timedout = true;
            T[i].futex = NULL;
        }
    }
}

static void switch_to(int n)
{
    int self = me;
    if (n == self) return;
    vp_nswitches++;
    sem_post(&T[n].sem);
    if (self >= 0) {
        while (sem_wait(&T[self].sem) < 0) ;
    }
}

/* the current thread cannot go on (blocked or dead): find another */
static void give_up(void)
{
    for (int guard = 0; ; guard++) {
        int n = pick(false);
        if (n >= 0) { if (n == me) return; switch_to(n); return; }
        uint64_t d = 0;
        for (int i = 0; i < nthr; i++) {
            if ((T[i].state == BLOCKED || T[i].state == POLLING) && T[i].deadline && (!d || T[i].deadline < d)) d = T[i].deadline;
        }
        if (!d) die("deadlock: every thread sleeps for ever");
        if (d > vp_vtime_us) vp_vtime_us = d;
        wake_expired();
        if (guard > 100000) die("no progress");
    }
}

static void tick(void)
{
    vp_npoints++;
    vp_vtime_us += 1;
    if (!(vp_npoints & 63)) wake_expired();
    if (vp_npoints > vp_max_points) die("livelock: too many steps");
}

void vp_point(void)
{
    if (!vp_sched_on || me < 0) return;
    tick();
    bool sw = false;
    if (mode == 2) {
        if (vp_npoints < VP_MAXREC) {
            uint32_t m = 0;
            for (int i = 0; i < nthr; i++) if (i != me && T[i].state == RUNNABLE) m |= 1u << i;
            vp_mask[vp_npoints] = m;
        }
        if (plan_i < vp_plan_n && vp_plan[plan_i].at == vp_npoints) {
            int n = vp_plan[plan_i++].thr;
            if (T[n].state == RUNNABLE && n != me) switch_to(n);
        }
        return;
    }
    if (mode == 0) {
        sw = rnd() % 1000 < (uint64_t)param;
    } else {
        for (int i = 0; i < 16; i++) if (chg[i] == vp_npoints) { T[me].prio = -(int)i - 1; sw = true; }
        if (++spins > 2000) { T[me].prio = -(int)(rnd() % 1000) - 100; spins = 0; sw = true; }
        if (rnd() % 20000 == 0) { T[rnd() % nthr].prio = (int)(rnd() % 1000); sw = true; }
    }
    if (sw) {
        int n = pick(false);
        if (n >= 0 && n != me) { spins = 0; switch_to(n); }
    }
}

static void yield_(void)
{
    tick();
    if (mode == 2 && vp_npoints < VP_MAXREC) vp_mask[vp_npoints] = 0;
    if (mode == 1) T[me].prio = -(int)(rnd() % 1000) - 100;
    wake_expired();
    int n = pick(true);
    if (n >= 0) { spins = 0; switch_to(n); return; }
    /* alone: let sleepers' deadlines come closer */
    vp_vtime_us += 50;
    wake_expired();
}

void vp_relax(void)
{
    if (!vp_sched_on || me < 0) { asm volatile("rep; nop" ::: "memory"); return; }
    yield_();
}

int __real_sched_yield(void);
int __wrap_sched_yield(void)
{
    if (!vp_sched_on || me < 0) return __real_sched_yield();
    yield_();
    return 0;
}

static int futex(const uint32_t *addr, int op, long val, const struct timespec *ts)
{
    op &= ~FUTEX_PRIVATE_FLAG;
    if (op == FUTEX_WAIT) {
        vp_point();
        if (*(volatile const uint32_t *)addr != (uint32_t)val) { errno = EAGAIN; return -1; }
        T[me].state = BLOCKED;
        T[me].futex = addr;
        T[me].timedout = false;
        T[me].deadline = ts ? vp_vtime_us + ts->tv_sec * 1000000ull + ts->tv_nsec / 1000 + 1 : 0;
        give_up();
        if (T[me].timedout) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE) {
        int n = 0;
        vp_point();
        while (n < val) {
            int c[MAXT], k = 0;
            for (int i = 0; i < nthr; i++) if (T[i].state == BLOCKED && T[i].futex == addr) c[k++] = i;
            if (!k) break;
            int w = c[rnd() % k];
            T[w].state = RUNNABLE;
            T[w].futex = NULL;
            n++;
        }
        return n;
    }
    errno = ENOSYS;
    return -1;
}

long __real_syscall(long nr, ...);
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f)
{
    if (nr == SYS_futex && vp_sched_on && me >= 0)
        return futex((const uint32_t *)a, (int)b, c, (const struct timespec *)d);
    return __real_syscall(nr, a, b, c, d, e, f);
}

int __real_epoll_wait(int fd, struct epoll_event *ev, int max, int timeout);
int __wrap_epoll_wait(int fd, struct epoll_event *ev, int max, int timeout)
{
    if (!vp_sched_on || me < 0) return __real_epoll_wait(fd, ev, max, timeout);
    uint64_t end = vp_vtime_us + (timeout > 0 ? timeout * 1000ull : 0);
    for (;;) {
        int n = __real_epoll_wait(fd, ev, max, 0);
        if (n != 0 || timeout == 0) { vp_point(); return n; }
        if (timeout > 0 && vp_vtime_us >= end) return 0;
        /* sleep a little: others may make a descriptor ready */
        T[me].state = POLLING;
        T[me].timedout = false;
        {
            bool alone = true;
            for (int i = 0; i < nthr; i++) {
                if (i != me && (T[i].state == RUNNABLE || ((T[i].state == BLOCKED || T[i].state == POLLING) && T[i].deadline))) alone = false;
            }
            if (alone && timeout < 0) die("deadlock: nothing can wake the event loop up");
            T[me].deadline = alone ? end : vp_vtime_us + 200;
        }
        if (timeout > 0 && T[me].deadline > end) T[me].deadline = end;
        give_up();
        if (timeout < 0 && vp_npoints++ > vp_max_points) die("livelock: nothing to wait for");
    }
}

int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us)
{
    if (!vp_sched_on || me < 0) return __real_usleep(us);
    T[me].state = POLLING;
    T[me].timedout = false;
    T[me].deadline = vp_vtime_us + us + 1;
    give_up();
    return 0;
}

int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!vp_sched_on || me < 0) return __real_pthread_mutex_lock(m);
    vp_point();
    while (pthread_mutex_trylock(m) == EBUSY) yield_();
    return 0;
}

/* threads */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
struct start { void *(*fn)(void *); void *arg; int id; };
static void *starter(void *p)
{
    struct start s = *(struct start *)p;
    free(p);
    me = s.id;
    while (sem_wait(&T[me].sem) < 0) ;
    void *r = s.fn(s.arg);
    if (vp_sched_on) {
        T[me].state = FREE;
        int self = me, live = 0;
        for (int i = 1; i < nthr; i++) live += T[i].state != FREE;
        if (!live && T[0].state == WAITALL) T[0].state = RUNNABLE;
        for (;;) {
            int n = pick(true);
            if (n >= 0) { me = -1; sem_post(&T[n].sem); break; }
            uint64_t d = 0;
            for (int i = 0; i < nthr; i++)
                if ((T[i].state == BLOCKED || T[i].state == POLLING) && T[i].deadline && (!d || T[i].deadline < d)) d = T[i].deadline;
            if (!d) die("deadlock at thread end");
            if (d > vp_vtime_us) vp_vtime_us = d;
            wake_expired();
        }
        (void)self;
    }
    return r;
}
static int vp_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!vp_sched_on) return real_create(t, a, fn, arg);
    if (nthr >= MAXT) die("too many threads");
    struct start *s = malloc(sizeof(*s));
    s->fn = fn; s->arg = arg; s->id = nthr;
    T[nthr].futex = NULL; T[nthr].deadline = 0; T[nthr].timedout = false;
    T[nthr].state = RUNNABLE;
    T[nthr].prio = (int)(rnd() % 1000);
    nthr++;
    int r = real_create(t, a, starter, s);
    if (r) die("pthread_create failed");
    if (mode != 2) vp_point();
    return r;
}
void *__real_dlsym(void *h, const char *s);
void *__wrap_dlsym(void *h, const char *s)
{
    void *p = __real_dlsym(h, s);
    if (!strcmp(s, "pthread_create")) {
        real_create = p;
        return vp_create;
    }
    return p;
}

/* virtual clocks */
static struct timeval t0;
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!vp_sched_on) return __real_gettimeofday(tv, tz);
    uint64_t us = 1700000000000000ull + vp_vtime_us;
    tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000;
    return 0;
}
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!vp_sched_on) return __real_clock_gettime(c, ts);
    uint64_t us = (c == CLOCK_REALTIME ? 1700000000000000ull : 1000000000ull) + vp_vtime_us;
    ts->tv_sec = us / 1000000; ts->tv_nsec = us % 1000000 * 1000;
    return 0;
}

void vp_sched_start(uint64_t seed, int m, int p)
{
    rng = seed * 0x2545F4914F6CDD1DULL + 12345;
    mode = m; param = p;
    static bool inited;
    if (!inited) for (int i = 0; i < MAXT; i++) sem_init(&T[i].sem, 0, 0);
    inited = true;
    nthr = 1;
    spins = plan_i = 0;
    vp_vtime_us = 0;
    T[0].futex = NULL; T[0].deadline = 0; T[0].timedout = false;
    T[0].state = RUNNABLE;
    T[0].prio = (int)(rnd() % 1000);
    me = 0;
    vp_npoints = vp_nswitches = 0;
    for (int i = 0; i < 16; i++) chg[i] = i < param ? 1 + rnd() % 6000 : 0;
    vp_sched_on = 1;
}
/* the main thread sleeps until every other thread has ended */
void vp_wait_others(void)
{
    int live = 0;
    for (int i = 1; i < nthr; i++) live += T[i].state != FREE;
    if (!live) return;
    T[0].state = WAITALL;
    give_up();
}
int vp_me(void) { return me; }
void vp_sched_stop(void) { vp_sched_on = 0; }
void vp_spawn(void *(*fn)(void *), void *arg)
{
    pthread_t t;
    if (!real_create) real_create = __real_dlsym(RTLD_NEXT, "pthread_create");
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_attr_setstacksize(&a, 256 << 10);
    vp_create(&t, &a, fn, arg);
}
