// sched.hpp - systematic thread scheduling. Real threads run one at a time; at every scheduling
// point the next thread to run is a choice of the engine. Code under test is compiled with thread
// sanitizer instrumentation and linked against the runtime below, which turns each memory access
// and atomic operation into a (potential) scheduling point, and with its pthread calls redirected
// to the wrappers below, which keep blocking visible to the scheduler.
#pragma once
#include "mc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <memory>

namespace sc {
enum St { READY, BLOCKED, ENDING, DONE };
struct Th {
    int id = 0; St st = DONE; std::atomic<int> go{0}; std::function<void()> f; pthread_t pt{}; bool fresh = false;
    const void* on = nullptr; uint64_t run = 0; // blocked on; consecutive points without a switch
    bool no_block = false, begun = false, quiet = false;                      // inside an operation that must not block
    uint8_t *lo = nullptr, *hi = nullptr;       // stack
};
inline void fwait(std::atomic<int>& a) { while (!a.load(std::memory_order_acquire)) syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0, std::memory_order_relaxed); }
inline void fpost(std::atomic<int>& a) { a.store(1, std::memory_order_release); syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static __thread Th* me __attribute__((tls_model("initial-exec")));

struct Sched {
    std::vector<std::unique_ptr<Th>> th; size_t n = 0; std::atomic<int> mgo{0}; Th* ending = nullptr; bool over = false;
    int bound = -1, preempts = 0; uint64_t steps = 0, limit = 20000, switches = 0, clock = 0;
    bool active = false; bool trace = false, always = false; std::vector<std::unique_ptr<Th>> pool;
    std::string (*dead)() = nullptr; // description of a deadlock
};
inline Sched& S() { static Sched s; return s; }
inline uint64_t tick() { return ++S().clock; }

inline void pin() { // one processor per worker: handing over is then cheap
    static bool done; if (done) return; done = true;
    cpu_set_t s; CPU_ZERO(&s); if (sched_getaffinity(0, sizeof s, &s)) return;
    std::vector<int> c; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s)) c.push_back(i);
    if (c.empty()) return; int w = (int)(mc::E().s - mc::E().sh->slot);
    CPU_ZERO(&s); CPU_SET(c[(size_t)w % c.size()], &s); sched_setaffinity(0, sizeof s, &s);
}
inline void post(Th* t) { t->run = 0; fpost(t->go); }
// choose the thread that continues; me may be ready, blocked or ended
inline void pick(bool yield = false) {
    Sched& s = S(); Th* m = me; Th* opt[16]; int k = 0; bool mr = m && m->st == READY;
    if (mr && !yield) opt[k++] = m;
    if (!(mr && !yield && s.bound >= 0 && s.preempts >= s.bound)) for (size_t i = 0; i < s.n; i++) { Th* t = s.th[i].get(); if (t != m && t->st == READY) opt[k++] = t; }
    if (mr && yield && !k) opt[k++] = m;
    if (!k) {
        bool all = true; for (size_t i = 0; i < s.n; i++) all &= s.th[i]->st == DONE;
        if (all) { s.over = true; return; }
        std::string w; for (size_t i = 0; i < s.n; i++) if (s.th[i]->st == BLOCKED) w += " " + std::to_string(s.th[i]->id);
        mc::fail("deadlock: no thread can continue; blocked threads:%s%s", w.c_str(), s.dead ? s.dead().c_str() : "");
    }
    int c = k > 1 ? mc::choose(k) : 0; Th* t = opt[c];
    if (t == m) { if (yield) m->run = 0; return; }
    if (mr && !yield) s.preempts++;
    s.switches++;
    if (s.trace) mc::text("|%d ", t->id);
    post(t);
    if (m && m->st != DONE && m->st != ENDING) fwait(m->go);
}
inline bool here() { return me && S().active && me->st == READY; }
inline void point() {
    if (!here() || me->quiet) return; Sched& s = S();
    mc::beat();
    if (!me->begun) { me->begun = true; return; } // nothing has happened since this thread was chosen to start
    if (++s.steps > s.limit) mc::fail("no progress: %llu scheduling points in one execution", (unsigned long long)s.limit);
    pick(++me->run > 400); // a thread that spins has to let others run eventually
}
inline void yield() { if (!here()) return; if (++S().steps > S().limit) mc::fail("no progress: %llu scheduling points in one execution", (unsigned long long)S().limit); pick(true); }
inline void block(const void* on) {
    if (me->no_block) mc::fail("an operation that never blocks was about to block");
    if (++S().steps > S().limit) mc::fail("no progress: %llu scheduling points in one execution", (unsigned long long)S().limit);
    me->st = BLOCKED; me->on = on; pick();
}
inline void wake(const void* on, bool all = true) { for (size_t i = 0; i < S().n; i++) { Th* t = S().th[i].get(); if (t->st == BLOCKED && t->on == on) { t->st = READY; if (!all) return; } } }

inline void stack_of(Th* t) { pthread_attr_t a; void* p; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a); t->lo = (uint8_t*)p; t->hi = t->lo + n; }
inline void* body(void* p) {
    Th* t = (Th*)p; me = t; stack_of(t);
    do {
        fwait(t->go); t->f();
        t->st = t->fresh ? ENDING : DONE;
        S().ending = t->fresh ? t : nullptr; bool fr = t->fresh; // t may be reused once the controller runs
        fpost(S().mgo); if (fr) return nullptr;
    } while (true);
}
inline Th* make(int id, bool fresh) {
    Th* t = new Th; t->id = id; t->fresh = fresh; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 << 10);
    if (pthread_create(&t->pt, &a, body, t)) mc::fail("internal: thread creation failed");
    pthread_attr_destroy(&a); return t;
}
// The kernel releases ended threads lazily; wait when it falls behind.
inline void relax() {
    static unsigned k; if (++k % 200) return;
    for (int i = 0; i < 10000; i++) {
        char b[8192]; int fd = open("/proc/meminfo", O_RDONLY); if (fd < 0) { usleep(1000); return; } ssize_t n = read(fd, b, sizeof b - 1); close(fd); b[n > 0 ? n : 0] = 0;
        const char* v = strstr(b, "VmallocUsed:"); const char* a = strstr(b, "MemAvailable:");
        if ((!v || atoll(v + 12) < 1500000) && (!a || atoll(a + 13) > 3000000)) return;
        mc::beat(); usleep(2000);
    }
}
// One execution of the given threads; the schedule is taken from the engine's choices.
// bound: preemptions allowed (-1: any number). fresh: new threads that really end.
inline void run(const std::vector<std::function<void()>>& f, int bound, bool fresh) {
    pin(); Sched& s = S(); s.n = f.size(); s.bound = bound; s.preempts = 0; s.steps = 0; s.over = false; s.clock = 0; s.ending = nullptr; s.trace = s.always || mc::E().replaying || mc::E().verbose;
    if (fresh) { relax(); s.th.clear(); for (size_t i = 0; i < s.n; i++) s.th.emplace_back(make((int)i, true)); }
    else { while (s.pool.size() < s.n) s.pool.emplace_back(make((int)s.pool.size(), false)); s.th.clear(); for (size_t i = 0; i < s.n; i++) s.th.emplace_back(s.pool[i].release()); }
    for (size_t i = 0; i < s.n; i++) { Th* t = s.th[i].get(); t->id = (int)i; t->f = f[i]; t->st = READY; t->on = nullptr; t->run = 0; t->no_block = t->begun = t->quiet = false; }
    s.active = true;
    for (;;) { pick(); if (s.over) break; fwait(s.mgo); if (s.ending) { Th* t = s.ending; s.ending = nullptr; pthread_join(t->pt, nullptr); t->st = DONE; } }
    s.active = false; s.n = 0;
    if (!fresh) for (size_t i = 0; i < s.th.size(); i++) s.pool[i].reset(s.th[i].release());
    s.th.clear();
}
// observers of the instrumented code
static void (*on_access)(const volatile void* p, size_t n, bool write) = nullptr; // before the access
static void (*on_call)() = nullptr;                                              // function entry
inline void acc(const volatile void* p, size_t n, bool w) { if (on_access && me) on_access(p, n, w); }
inline bool own_stack(const volatile void* p) { return me && (uint8_t*)p >= me->lo && (uint8_t*)p < me->hi; }
} // namespace sc

// ---- thread sanitizer interface ---------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (sc::on_call && sc::me) sc::on_call(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { sc::acc(p, 8, true); }
void __tsan_vptr_read(void** p) { sc::acc(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { sc::acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { sc::acc(p, n, true); }
#define RW(n) void __tsan_read##n(void* p) { sc::acc(p, n, false); } void __tsan_write##n(void* p) { sc::acc(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { sc::acc(p, n, false); } void __tsan_unaligned_write##n(void* p) { sc::acc(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { sc::acc(p, n, false); } void __tsan_volatile_write##n(void* p) { sc::acc(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { sc::acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { sc::acc(p, n, true); } \
    void __tsan_read_write##n(void* p) { sc::acc(p, n, false); sc::acc(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { sc::acc(p, n, false); sc::acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { sc::acc(s, n, false); sc::acc(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { sc::acc(s, n, false); sc::acc(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) sc::acc(d, n, true); return memset(d, c, n); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { sc::acc(a, sizeof(T), false); return *a; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { sc::acc(a, sizeof(T), true); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sc::acc(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sc::acc(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sc::acc(a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- blocking primitives ----------------------------------------------------------------------
namespace sc_w { inline int (*refuse)(const char*) = nullptr; inline int refused(const char* w) { return refuse && sc::me == nullptr ? refuse(w) : 0; } }
#define BLOCKING(name, args, tryexpr, obj) int zyv_##name args { if (int e = sc_w::refused("lock")) return e; sc::point(); for (;;) { int r = tryexpr; if (r != EBUSY || !sc::here()) return r; sc::block((const void*)(obj)); } }
#define UNBLOCK(name, args, expr, obj) int zyv_##name args { if (int e = sc_w::refused("unlock")) return e; sc::point(); int r = expr; if (!r) sc::wake((const void*)(obj)); return r; }
static int sc_spin_yield(int r) { if (r == EBUSY && sc::me && ++sc::me->run > 20) sc::yield(); return r; }
BLOCKING(pthread_mutex_lock, (pthread_mutex_t* m), pthread_mutex_trylock(m), m)
BLOCKING(pthread_mutex_timedlock, (pthread_mutex_t* m, const struct timespec*), pthread_mutex_trylock(m), m)
int zyv_pthread_mutex_trylock(pthread_mutex_t* m) { if (int e = sc_w::refused("lock")) return e; sc::point(); return sc_spin_yield(pthread_mutex_trylock(m)); }
UNBLOCK(pthread_mutex_unlock, (pthread_mutex_t* m), pthread_mutex_unlock(m), m)
BLOCKING(pthread_rwlock_wrlock, (pthread_rwlock_t* m), pthread_rwlock_trywrlock(m), m)
BLOCKING(pthread_rwlock_rdlock, (pthread_rwlock_t* m), pthread_rwlock_tryrdlock(m), m)
int zyv_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { sc::point(); return sc_spin_yield(pthread_rwlock_trywrlock(m)); }
int zyv_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { sc::point(); return sc_spin_yield(pthread_rwlock_tryrdlock(m)); }
UNBLOCK(pthread_rwlock_unlock, (pthread_rwlock_t* m), pthread_rwlock_unlock(m), m)
BLOCKING(pthread_spin_lock, (pthread_spinlock_t* m), pthread_spin_trylock(m), m)
int zyv_pthread_spin_trylock(pthread_spinlock_t* m) { if (int e = sc_w::refused("lock")) return e; sc::point(); return sc_spin_yield(pthread_spin_trylock(m)); }
UNBLOCK(pthread_spin_unlock, (pthread_spinlock_t* m), pthread_spin_unlock(m), m)
int zyv_sem_wait(sem_t* m) { sc::point(); for (;;) { int r = sem_trywait(m); if (!r || errno != EAGAIN || !sc::here()) return r; sc::block(m); } }
int zyv_sem_trywait(sem_t* m) { sc::point(); int r = sem_trywait(m); if (r) { int e = errno; sc_spin_yield(EBUSY); errno = e; } return r; }
int zyv_sem_post(sem_t* m) { sc::point(); int r = sem_post(m); if (!r) sc::wake(m); return r; }
int zyv_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { // re-implemented: the wait is visible
    sc::point(); if (!sc::here()) return 0; int r = pthread_mutex_unlock(m); if (r) return r; sc::wake(m); sc::block(c);
    for (;;) { r = pthread_mutex_trylock(m); if (r != EBUSY) return r; sc::block(m); }
}
int zyv_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return zyv_pthread_cond_wait(c, m); }
int zyv_pthread_cond_signal(pthread_cond_t* c) { sc::point(); sc::wake(c, false); return 0; }
int zyv_pthread_cond_broadcast(pthread_cond_t* c) { sc::point(); sc::wake(c); return 0; }
int zyv_sched_yield() { sc::yield(); return 0; }
int zyv_usleep(unsigned) { sc::yield(); return 0; }
int zyv_nanosleep(const struct timespec*, struct timespec*) { sc::yield(); return 0; }
int zyv_pthread_once(pthread_once_t* o, void (*f)()) { sc::point(); return pthread_once(o, f); }
// resource exhaustion at initialization
int zyv_pthread_mutexattr_init(pthread_mutexattr_t* a) { if (int e = sc_w::refused("mutexattr")) return e; return pthread_mutexattr_init(a); }
int zyv_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (int e = sc_w::refused("mutex")) return e; return pthread_mutex_init(m, a); }
int zyv_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { sc::point(); if (int e = sc_w::refused("key")) return e; return pthread_key_create(k, d); }
int zyv_pthread_key_delete(pthread_key_t k) { sc::point(); return pthread_key_delete(k); }
void* zyv_pthread_getspecific(pthread_key_t k) { sc::point(); return pthread_getspecific(k); }
int zyv_pthread_setspecific(pthread_key_t k, const void* p) { if (int e = sc_w::refused("store")) return e; sc::point(); return pthread_setspecific(k, p); }
}
