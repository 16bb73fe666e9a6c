/* Threads of the code under test. Each is a real thread with its own stack, errno and thread-local data, but exactly one runs
 * at a time: the running one keeps going until the seed says that another one goes on. Switches happen at memory accesses of
 * Apex (the P17 build has a call at each), at its allocations and at its locks; locks are modelled, so that waiting for one is
 * a switch and a state in which every thread waits is a deadlock. Accesses to static data that the same conversions also write
 * (found while they run alone), and calls of libc functions with hidden static data, are switch points far more often. */
#include "sim.h"
#include <cerrno>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <threads.h>
#include <cstring>
#include <clocale>
#include <ctime>
#include <search.h>

extern bool sut_threads;
struct Thr { pthread_t t; sem_t go; std::function<void()> fn; bool done = false; const void *wait = nullptr; };
static vector<Thr *> T; static int cur = -1; static sem_t all_done; static __thread int me = -1;
static long budget; static u32 policy; static u64 switches, ticks, hot_seen, hot_n; static u32 hot_den = 4;
struct Lock { int owner = -2; int n = 0; int readers = 0; };
static std::map<const void *, Lock> locks; static std::map<const void *, int> onces;
void locks_reset() { locks.clear(); onces.clear(); }
int locks_held() { int n = 0; for (auto &l : locks) if (l.second.n || l.second.readers) n++; return n; }

static void new_budget() { u32 k = draw(S, policy + 1); budget = k ? 1 + (long)draw(S, 1u << k) : 1l << 40; }
static bool run_on; /* let the next thread run until it, too, touches shared data */
static void switch_to(int k) {
    ihash_add(ticks * 31 + (u64)k); switches++; ev("switch", "%d->%d at %llu", me, k, (unsigned long long)ticks);
    int self = me; cur = k; new_budget(); if (run_on) { budget = 1l << 40; run_on = false; } sem_post(&T[k]->go);
    if (!T[self]->done) while (sem_wait(&T[self]->go)) {}
}
static vector<int> ready(bool self) { vector<int> v; for (size_t i = 0; i < T.size(); i++) if (!T[i]->done && !T[i]->wait && (self || (int)i != me)) v.push_back((int)i); return v; }
static void yield_() { vector<int> v = ready(false); if (v.empty()) { new_budget(); return; } R->faults[FK_PREEMPT]++; switch_to(v[draw(S, (u32)v.size())]); }
void thread_tick(long n) { if (me < 0) return; ticks += (u64)n; if ((budget -= n) <= 0) { int e = errno; yield_(); errno = e; } }
static void block_on(const void *what, const char *kind) {
    if (me < 0) fail("deadlock", kind, "Apex waits for a lock that nothing will release (%s)", kind);
    T[me]->wait = what; vector<int> v = ready(false);
    if (v.empty()) fail("deadlock", kind, "all %zu threads wait for each other (%s)", T.size(), kind);
    switch_to(v[draw(S, (u32)v.size())]);
}
static void wake(const void *what) { for (auto *t : T) if (t->wait == what) t->wait = nullptr; }
static void *entry(void *a) {
    me = (int)(long)a; while (sem_wait(&T[me]->go)) {}
    T[me]->fn(); T[me]->done = true;
    vector<int> v = ready(false);
    if (!v.empty()) switch_to(v[draw(S, (u32)v.size())]);
    else { for (auto *t : T) if (!t->done) fail("deadlock", "lock", "a thread ended and the others wait for it"); sem_post(&all_done); }
    return nullptr;
}
u64 run_threads(const vector<std::function<void()>> &fns) {
    sem_init(&all_done, 0, 0); T.clear(); switches = ticks = 0; policy = 4 + draw(S, 15); hot_den = (u32[]){4, 2, 8, 32, 1}[draw(S, 5)]; hot_seen = 0;
    for (auto &f : fns) { Thr *t = new Thr; sem_init(&t->go, 0, 0); t->fn = f; T.push_back(t); }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
    for (size_t i = 0; i < T.size(); i++) if (pthread_create(&T[i]->t, &at, entry, (void *)(long)i)) abort();
    sut_threads = true; new_budget(); cur = (int)draw(S, (u32)T.size()); sem_post(&T[(size_t)cur]->go);
    while (sem_wait(&all_done)) {}
    sut_threads = false; for (auto *t : T) pthread_join(t->t, nullptr);
    probe("memory-accesses", ticks); probe("switches", switches); probe("shared-accesses", hot_seen); if (hot_n) probe("runs-with-shared-data");
    return switches;
}

/* ---- calls that gcc -fsanitize=thread places at memory accesses ---- */
extern char __start_sutdata[] __attribute__((weak)), __stop_sutdata[] __attribute__((weak)), __start_sutbss[] __attribute__((weak)), __stop_sutbss[] __attribute__((weak));
static char *d_lo, *d_hi, *b_lo, *b_hi; static vector<bool> d_hot, b_hot;
static void globals_init() { if (d_hi || b_hi) return; d_lo = __start_sutdata; d_hi = __stop_sutdata; b_lo = __start_sutbss; b_hi = __stop_sutbss; d_hot.resize((size_t)(d_hi - d_lo) / 8 + 2); b_hot.resize((size_t)(b_hi - b_lo) / 8 + 2); }
static void hot_point() { hot_seen++; u32 k = draw(S, hot_den); if (hot_den > 1 && k == hot_den - 1) { int e = errno; run_on = draw(S, 2); yield_(); run_on = false; errno = e; } else if (hot_den > 2 && k == hot_den - 2) budget = 1 + (long)draw(S, 64); }
static inline void access_(char *a, size_t n, bool write) {
    bool in_d = a >= d_lo && a < d_hi, in_b = a >= b_lo && a < b_hi;
    if (in_d || in_b) {
        vector<bool> &h = in_d ? d_hot : b_hot; size_t i = (size_t)(a - (in_d ? d_lo : b_lo)) / 8, j = (size_t)(a + (n ? n - 1 : 0) - (in_d ? d_lo : b_lo)) / 8;
        if (me < 0) { if (write) for (; i <= j && i < h.size(); i++) if (!h[i]) { h[i] = true; hot_n++; } return; }
        if (h[i] || (write && me >= 0)) { hot_point(); ticks++; return; }
    }
    if (me >= 0) thread_tick(1);
}
void thread_hot() { if (me >= 0) hot_point(); }
void threads_watch() { globals_init(); }
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define ACC(N) void __tsan_read##N(void *a) { access_((char *)a, N, false); } void __tsan_write##N(void *a) { access_((char *)a, N, true); } \
  void __tsan_unaligned_read##N(void *a) { access_((char *)a, N, false); } void __tsan_unaligned_write##N(void *a) { access_((char *)a, N, true); } \
  void __tsan_volatile_read##N(void *a) { access_((char *)a, N, false); } void __tsan_volatile_write##N(void *a) { access_((char *)a, N, true); } \
  void __tsan_unaligned_volatile_read##N(void *a) { access_((char *)a, N, false); } void __tsan_unaligned_volatile_write##N(void *a) { access_((char *)a, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, long n) { access_((char *)a, (size_t)n, false); }
void __tsan_write_range(void *a, long n) { access_((char *)a, (size_t)n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { access_((char *)a, sizeof(T), true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { access_((char *)a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access_((char *)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access_((char *)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access_((char *)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
/* libc functions that keep static data between calls */
#define HOT() thread_hot()
char *sim_strtok(char *s, const char *d) { HOT(); char *r = strtok(s, d); HOT(); return r; }
struct tm *sim_localtime(const time_t *t) { HOT(); struct tm *r = localtime(t); HOT(); return r; }
struct tm *sim_gmtime(const time_t *t) { HOT(); struct tm *r = gmtime(t); HOT(); return r; }
char *sim_ctime(const time_t *t) { HOT(); char *r = ctime(t); HOT(); return r; }
char *sim_asctime(const struct tm *t) { HOT(); char *r = asctime(t); HOT(); return r; }
char *sim_setlocale(int c, const char *l) { HOT(); char *r = setlocale(c, l); HOT(); return r; }
int sim_putenv(char *s) { HOT(); int r = putenv(s); HOT(); return r; }
int sim_hcreate(size_t n) { HOT(); return hcreate(n); }
int sim_rand(void) { HOT(); return (int)(draw(W, 1u << 30)); }
long sim_random(void) { HOT(); return (long)(draw(W, 1u << 30)); }
}

/* libc functions that fill a buffer of Apex (this build only): writing static data is a switch point before and after */
extern "C" {
#define FILLS(d, n, call) { access_((char *)(d), (n), true); auto r = call; if (me >= 0 && is_static(d)) access_((char *)(d), 1, true); return r; }
static inline bool is_static(const void *p) { char *a = (char *)p; return (a >= d_lo && a < d_hi) || (a >= b_lo && a < b_hi); }
void *thr_memcpy(void *d, const void *s, size_t n) FILLS(d, n, memcpy(d, s, n))
void *thr_memmove(void *d, const void *s, size_t n) FILLS(d, n, memmove(d, s, n))
void *thr_memset(void *d, int c, size_t n) FILLS(d, n, memset(d, c, n))
char *thr_strcpy(char *d, const char *s) FILLS(d, strlen(s) + 1, strcpy(d, s))
char *thr_strncpy(char *d, const char *s, size_t n) FILLS(d, n, strncpy(d, s, n))
char *thr_stpcpy(char *d, const char *s) FILLS(d, strlen(s) + 1, stpcpy(d, s))
char *thr_strcat(char *d, const char *s) FILLS(d, strlen(d) + strlen(s) + 1, strcat(d, s))
char *thr_strncat(char *d, const char *s, size_t n) FILLS(d, strlen(d) + strnlen(s, n) + 1, strncat(d, s, n))
int thr_vsnprintf(char *d, size_t n, const char *f, va_list ap) FILLS(d, n, vsnprintf(d, n, f, ap))
int thr_vsprintf(char *d, const char *f, va_list ap) FILLS(d, 1, vsprintf(d, f, ap))
int thr_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = thr_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int thr_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = thr_vsprintf(d, f, ap); va_end(ap); return r; }
size_t thr_strftime(char *d, size_t n, const char *f, const struct tm *t) FILLS(d, n, strftime(d, n, f, t))
}

enum { NORMAL, RECURSIVE, ERRORCHECK };
static int lock_(const void *m, int kind, bool try_, const char *what) {
    thread_tick(8); Lock &l = locks[m];
    for (;;) {
        if (!l.n && !l.readers) { l.owner = me; l.n = 1; return 0; }
        if (l.n && l.owner == me) {
            if (kind == RECURSIVE) { l.n++; return 0; }
            if (try_) return EBUSY;
            if (kind == ERRORCHECK) return EDEADLK;
            fail("deadlock", what, "a thread waits for a lock that it holds itself (%s)", what);
        }
        if (try_) return EBUSY;
        block_on(m, what);
    }
}
static int unlock_(const void *m, int kind) {
    Lock &l = locks[m];
    if (l.readers) l.readers--;
    else if (!l.n || l.owner != me) { if (kind != NORMAL) return EPERM; l.n = 0; }
    else l.n--;
    if (!l.n && !l.readers) { l.owner = -2; wake(m); }
    thread_tick(8); return 0;
}
static int kind_of(pthread_mutex_t *m) { int k = m->__data.__kind & 3; return k == PTHREAD_MUTEX_RECURSIVE ? RECURSIVE : k == PTHREAD_MUTEX_ERRORCHECK ? ERRORCHECK : NORMAL; }
static int once_(const void *o, void (*f)(void)) {
    thread_tick(8);
    for (;;) { int s = onces[o]; if (s == 2) return 0; if (s == 0) break; block_on(o, "pthread_once"); }
    onces[o] = 1; f(); onces[o] = 2; wake(o); return 0;
}
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { locks.erase(m); return pthread_mutex_init(m, a); }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { if (locks[m].n) return EBUSY; locks.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return lock_(m, kind_of(m), false, "mutex"); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return lock_(m, kind_of(m), true, "mutex"); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock_(m, kind_of(m)); }
int sim_pthread_spin_init(pthread_spinlock_t *m, int) { locks.erase((const void *)m); return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *m) { locks.erase((const void *)m); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { return lock_((const void *)m, NORMAL, false, "spin lock"); }
int sim_pthread_spin_trylock(pthread_spinlock_t *m) { return lock_((const void *)m, NORMAL, true, "spin lock"); }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { return unlock_((const void *)m, NORMAL); }
int sim_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { locks.erase(m); return pthread_rwlock_init(m, a); }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) { locks.erase(m); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock_(m, NORMAL, false, "rwlock"); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { thread_tick(8); Lock &l = locks[m]; while (l.n) { if (l.owner == me) return EDEADLK; block_on(m, "rwlock"); } l.readers++; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock_(m, NORMAL); }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return pthread_cond_init(c, a); }
int sim_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { Lock &l = locks[m]; int n = l.n; l.n = 0; l.owner = -2; wake(m); block_on(c, "condition"); int r = lock_(m, NORMAL, false, "mutex"); locks[m].n = n; return r; }
int sim_pthread_cond_signal(pthread_cond_t *c) { for (auto *t : T) if (t->wait == (const void *)c) { t->wait = nullptr; break; } thread_tick(8); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { wake(c); thread_tick(8); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { return once_(o, f); }
int sim_mtx_init(mtx_t *m, int type) { pthread_mutex_t *p = (pthread_mutex_t *)m; locks.erase(m); pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, type & mtx_recursive ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_NORMAL); pthread_mutex_init(p, &a); return thrd_success; }
void sim_mtx_destroy(mtx_t *m) { locks.erase(m); }
int sim_mtx_lock(mtx_t *m) { return lock_(m, kind_of((pthread_mutex_t *)m), false, "mutex") ? thrd_error : thrd_success; }
int sim_mtx_trylock(mtx_t *m) { return lock_(m, kind_of((pthread_mutex_t *)m), true, "mutex") ? thrd_busy : thrd_success; }
int sim_mtx_unlock(mtx_t *m) { return unlock_(m, kind_of((pthread_mutex_t *)m)) ? thrd_error : thrd_success; }
void sim_call_once(once_flag *o, void (*f)(void)) { once_(o, f); }
int sim_sched_yield(void) { if (me >= 0) yield_(); return 0; }
void sim_thrd_yield(void) { if (me >= 0) yield_(); }
unsigned long sim_pthread_self(void) { return (unsigned long)(me + 2); }
}
