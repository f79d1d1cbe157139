#include "schedule.h"
#include "pbt.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
struct thr { volatile int go; volatile bool used, finished, joined; bool yielded; pthread_t tid; void *(*fn)(void *); void *arg; int joining; };
static struct thr T[MAXT];
static int nthr;
static volatile bool active;
static __thread int me = -1;
static int cur;
static long left;                   /* points until the next switch */
static unsigned style, plain;
static unsigned long idle;          /* consecutive hand-overs without any access in between */
__thread int sched_create_fail;
unsigned long sched_switches, sched_points, sched_creates, sched_limit = 600000;
static unsigned long case_points, case_switches;

static void fwait(volatile int *p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); *p = 0; }
static void fwake(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

static long gap(void)
{
    /* 0 = run on for long; larger values interrupt sooner */
    if (case_points > 60000) return 60;         /* round robin: every thread gets its turn */
    uint64_t c = pbt_uniform(0, 63);
    if (c < 8) return 1200;
    switch (style) {
        case 0: return 1 + (long) (300 >> (c & 7)) + (long) (c >> 3);
        case 1: return 1 + (long) ((63 - c) / 8);
        case 2: return 5 + (long) ((63 - c) * 8);
        default: return 1 + (long) ((63 - c) / 14);     /* counts atomics and wrapped calls only */
    }
}
static bool runnable(int i)
{
    if (!T[i].used || T[i].finished) return false;
    if (T[i].joining >= 0 && !T[T[i].joining].finished) return false;
    return true;
}
static int choose(bool other)
{
    int cand[MAXT], n = 0;
    for (int k = 1; k <= nthr; k++) {           /* in cyclic order, the current one last */
        int i = (cur + k) % nthr;
        if (!runnable(i) || (other && i == cur)) continue;
        cand[n++] = i;
    }
    if (n == 0) return -1;
    if (n == 1 || case_points > 60000) return cand[0];
    return cand[pbt_uniform(0, n - 1)];
}
static void hand_over(int to)
{
    int from = cur;
    sched_switches++; case_switches++;
    cur = to; left = gap();
    if (to == from) return;
    fwake(&T[to].go);
}
static void deadlock(void) { pbt_fail("deadlock: no thread can go on"); }
static void tick(int w)
{
    case_points++; sched_points++;
    if (case_points > sched_limit) pbt_fail("the threads do not come to an end: %lu accesses, %lu switches", case_points, case_switches);
    if (style == 3 && !w) { if (++plain < 300) return; left = 0; }     /* a spinning thread is interrupted too */
    plain = 0;
    if (--left > 0) return;
    int to = choose(true), self = me;
    if (to < 0) { left = 100; return; }
    hand_over(to); fwait(&T[self].go);
}
static void access_(void) { if (!active || me < 0) return; idle = 0; tick(0); }
void sched_point(void) { if (!active || me < 0) return; idle = 0; tick(1); }
void sched_yield_now(void)
{
    if (!active || me < 0) return;
    int self = me;
    if (++idle > 20000) deadlock();
    if (case_switches > sched_limit) pbt_fail("the threads do not come to an end: %lu switches", case_switches);
    case_points++;
    int to = choose(true);
    if (to < 0) { if (!runnable(self)) deadlock(); return; }
    hand_over(to); fwait(&T[self].go);
}
int sched_self(void) { return me; }
int sched_live(void) { int n = 0; for (int i = 1; i < nthr; i++) if (T[i].used && !T[i].finished) n++; return n; }
void sched_begin(unsigned st)
{
    memset(T, 0, sizeof T); nthr = 1; me = 0; cur = 0; style = st; idle = 0; case_points = case_switches = 0; sched_create_fail = 0;
    T[0].used = true; T[0].joining = -1; T[0].tid = pthread_self(); active = true; left = gap();
}
void sched_end(void)
{
    for (int i = 1; i < nthr; i++) while (!T[i].finished) sched_yield_now();
    active = false; me = -1;
    for (int i = 1; i < nthr; i++) if (!T[i].joined) { extern int __real_pthread_join(pthread_t, void **); __real_pthread_join(T[i].tid, NULL); }
}

/*---- threads ----*/
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
static void *trampoline(void *v)
{
    struct thr *t = v; int i = (int) (t - T);
    fwait(&t->go);
    me = i;
    void *r = t->fn(t->arg);
    me = -1;
    t->finished = true;
    int to = choose(true);
    if (to < 0) deadlock();
    hand_over(to);
    return r;
}
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    if (!active || me < 0) return __real_pthread_create(id, at, fn, arg);
    sched_creates++;
    sched_point();
    if (sched_create_fail) { int e = sched_create_fail; sched_create_fail = 0; return e; }
    if (nthr == MAXT) _exit(103);
    int i = nthr;
    T[i].fn = fn; T[i].arg = arg; T[i].joining = -1; T[i].go = 0; T[i].finished = T[i].joined = false;
    pthread_attr_t small; pthread_attr_init(&small); pthread_attr_setstacksize(&small, 256 * 1024);
    int rc = __real_pthread_create(id, at ? at : &small, trampoline, &T[i]);
    if (rc) _exit(103);
    T[i].tid = *id; T[i].used = true; nthr = i + 1;
    sched_point();
    return 0;
}
int __wrap_pthread_join(pthread_t id, void **res)
{
    if (!active || me < 0) return __real_pthread_join(id, res);
    sched_point();
    int k = -1;
    for (int i = 1; i < nthr; i++) if (T[i].used && !T[i].joined && pthread_equal(T[i].tid, id)) k = i;
    if (k < 0) pbt_fail("pthread_join of a thread that does not exist or was joined before");
    if (k == me) return EDEADLK;
    T[k].joined = true;
    T[me].joining = k;
    while (!T[k].finished) sched_yield_now();
    T[me].joining = -1;
    int rc = __real_pthread_join(id, res);
    sched_point();
    return rc;
}
int __real_pthread_setname_np(pthread_t, const char *);
int __wrap_pthread_setname_np(pthread_t t, const char *n) { sched_point(); int r = __real_pthread_setname_np(t, n); sched_point(); return r; }

/*---- blocking primitives: try, and let the others run ----*/
#define TRY(name, type, try) int __real_##name(type *); int __wrap_##name(type *m) \
    { if (!active || me < 0) return __real_##name(m); int rc; sched_point(); while ((rc = try(m)) == EBUSY) sched_yield_now(); return rc; }
#define POINT(name, type) int __real_##name(type *); int __wrap_##name(type *m) { int rc = __real_##name(m); sched_point(); return rc; }
TRY(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
POINT(pthread_mutex_unlock, pthread_mutex_t)
TRY(pthread_spin_lock, pthread_spinlock_t, pthread_spin_trylock)
TRY(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
TRY(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
POINT(pthread_rwlock_unlock, pthread_rwlock_t)
int __real_sem_wait(sem_t *);
int __wrap_sem_wait(sem_t *s) { if (!active || me < 0) return __real_sem_wait(s); sched_point(); while (sem_trywait(s) != 0) sched_yield_now(); return 0; }
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)     /* as a spurious wake-up */
{ if (!active || me < 0) return __real_pthread_cond_wait(c, m); pthread_mutex_unlock(m); sched_yield_now(); return __wrap_pthread_mutex_lock(m); }
int __real_pthread_once(pthread_once_t *, void (*)(void));
/* glibc: 0 = not run, 2 = done; ours keeps to that so that both may be mixed */
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void))
{
    if (!active || me < 0) return __real_pthread_once(o, fn);
    sched_point();
    for (;;) { if (*o == 2) return 0; if (*o == 0) { *o = 5; fn(); *o = 2; return 0; } sched_yield_now(); }
}
int __wrap_sched_yield(void) { sched_yield_now(); return 0; }
int __wrap_usleep(useconds_t u) { (void) u; if (!active || me < 0) { struct timespec t = { 0, u * 1000 }; return nanosleep(&t, NULL); } sched_yield_now(); return 0; }
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!active || me < 0) return __real_nanosleep(a, b); sched_yield_now(); return 0; }
unsigned __wrap_sleep(unsigned s) { (void) s; sched_yield_now(); return 0; }

/*---- what -fsanitize=thread calls ----*/
#define A(n) void n(void *p) { (void) p; access_(); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
A(__tsan_read1) A(__tsan_read2) A(__tsan_read4) A(__tsan_read8) A(__tsan_read16)
A(__tsan_write1) A(__tsan_write2) A(__tsan_write4) A(__tsan_write8) A(__tsan_write16)
A(__tsan_unaligned_read2) A(__tsan_unaligned_read4) A(__tsan_unaligned_read8) A(__tsan_unaligned_read16)
A(__tsan_unaligned_write2) A(__tsan_unaligned_write4) A(__tsan_unaligned_write8) A(__tsan_unaligned_write16)
A(__tsan_volatile_read1) A(__tsan_volatile_read2) A(__tsan_volatile_read4) A(__tsan_volatile_read8) A(__tsan_volatile_read16)
A(__tsan_volatile_write1) A(__tsan_volatile_write2) A(__tsan_volatile_write4) A(__tsan_volatile_write8) A(__tsan_volatile_write16)
A(__tsan_read_write1) A(__tsan_read_write2) A(__tsan_read_write4) A(__tsan_read_write8) A(__tsan_read_write16)
void __tsan_vptr_update(void **a, void *b) { (void) a; (void) b; access_(); }
void __tsan_vptr_read(void **a) { (void) a; access_(); }
void __tsan_read_range(void *p, unsigned long n) { (void) p; (void) n; access_(); }
void __tsan_write_range(void *p, unsigned long n) { (void) p; (void) n; access_(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { (void) mo; sched_point(); }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }
#define ATOMICS(B, Ty) \
Ty __tsan_atomic##B##_load(const volatile Ty *a, int mo) { sched_point(); Ty r = *a; return r; } \
void __tsan_atomic##B##_store(volatile Ty *a, Ty v, int mo) { sched_point(); *a = v; sched_point(); } \
Ty __tsan_atomic##B##_exchange(volatile Ty *a, Ty v, int mo) { sched_point(); Ty r = __atomic_exchange_n(a, v, 5); sched_point(); return r; } \
Ty __tsan_atomic##B##_fetch_add(volatile Ty *a, Ty v, int mo) { sched_point(); Ty r = __atomic_fetch_add(a, v, 5); sched_point(); return r; } \
Ty __tsan_atomic##B##_fetch_sub(volatile Ty *a, Ty v, int mo) { sched_point(); Ty r = __atomic_fetch_sub(a, v, 5); sched_point(); return r; } \
Ty __tsan_atomic##B##_fetch_and(volatile Ty *a, Ty v, int mo) { sched_point(); Ty r = __atomic_fetch_and(a, v, 5); sched_point(); return r; } \
Ty __tsan_atomic##B##_fetch_or(volatile Ty *a, Ty v, int mo) { sched_point(); Ty r = __atomic_fetch_or(a, v, 5); sched_point(); return r; } \
Ty __tsan_atomic##B##_fetch_xor(volatile Ty *a, Ty v, int mo) { sched_point(); Ty r = __atomic_fetch_xor(a, v, 5); sched_point(); return r; } \
Ty __tsan_atomic##B##_fetch_nand(volatile Ty *a, Ty v, int mo) { sched_point(); Ty r = __atomic_fetch_nand(a, v, 5); sched_point(); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile Ty *a, Ty *c, Ty v, int mo, int f) \
{ sched_point(); int ok = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); sched_point(); return ok; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile Ty *a, Ty *c, Ty v, int mo, int f) \
{ return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, f); } \
Ty __tsan_atomic##B##_compare_exchange_val(volatile Ty *a, Ty c, Ty v, int mo, int f) \
{ sched_point(); Ty r = c; __atomic_compare_exchange_n(a, &r, v, 0, 5, 5); sched_point(); return r; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
