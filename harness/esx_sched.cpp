// Native side of the engine's threads: one thread runs at a time, and at each
// synchronising operation the recorded schedule says who goes on.  The rules
// are those of schedPoint() and its users in engine/esx.cpp.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" uint64_t esx_next(const char *);
extern "C" void __tsan_acquire(void *) __attribute__((weak));     // only in the thread sanitizer build
extern "C" void __tsan_release(void *) __attribute__((weak));
extern "C" char __executable_start, etext;
namespace {
enum { OP_none, OP_lock, OP_join, OP_cond, OP_futex, OP_done };
struct T { int op = OP_none; uint64_t arg = 0, arg2 = 0; pthread_t real{}; bool joined = false; };
T th[16];
int n = 1;
int cur = 0;
__thread int me = 0;
struct Lock { uint64_t m; int who; } locks[1024];
int &owner(uint64_t m)
{
    for(auto &l: locks) {
        if(!l.m) { l.m = m; l.who = -1; }
        if(l.m == m) return l.who;
    }
    printf("ESX-DIVERGED mutexes\n"); fflush(stdout); _exit(3);
}
void end(const char *what) { printf("ESX-VIOLATED %s\n", what); fflush(stdout); _exit(1); }
bool held(uint64_t m) { return owner(m) >= 0; }
bool enabled(int i)
{
    T &t = th[i];
    switch(t.op) {
    case OP_none: return true;
    case OP_lock: return !held(t.arg);
    case OP_join: return th[t.arg].op == OP_done;
    case OP_futex: return __atomic_load_n((uint32_t *)t.arg, __ATOMIC_SEQ_CST) != t.arg2;
    default: return false;
    }
}
void awaitTurn(int id)
{
    for(int c; (c = __atomic_load_n(&cur, __ATOMIC_SEQ_CST)) != id;) syscall(SYS_futex, &cur, FUTEX_WAIT, c, nullptr, nullptr, 0);
}
void choose()
{
    int c[16];
    unsigned s = 0;
    for(int i = 0; i < n; ++i) if(enabled(i)) c[s++] = i;
    if(!s) end("every thread waits");
    unsigned k = s > 1 ? esx_next("sched") : 0;
    if(k >= s) { printf("ESX-DIVERGED schedule\n"); fflush(stdout); _exit(3); }
    int id = me;
    if(c[k] == id) return;
    bool done = th[id].op == OP_done;
    __atomic_store_n(&cur, c[k], __ATOMIC_SEQ_CST);
    syscall(SYS_futex, &cur, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0);
    if(!done) awaitTurn(id);
}
void point(int op = OP_none, uint64_t a = 0, uint64_t b = 0)
{
    T &t = th[me];
    t.op = op; t.arg = a; t.arg2 = b;
    int alive = 0;
    for(int i = 0; i < n; ++i) alive += th[i].op != OP_done;
    if(alive < 2) { if(!enabled(me)) end("every thread waits"); }
    else choose();
    t.op = OP_none;
}
struct Start { void *(*f)(void *); void *a; int id; };
void *run(void *p)
{
    Start s = *(Start *)p;
    delete (Start *)p;
    me = s.id;
    awaitTurn(me);
    void *r = s.f(s.a);
    th[me].op = OP_done;
    choose();
    return r;
}
void take(void *m) { owner((uint64_t)m) = me; if(__tsan_acquire) __tsan_acquire(m); }
void give(void *m) { if(__tsan_release) __tsan_release(m); owner((uint64_t)m) = -1; }
bool ours(void *ra) { return (char *)ra >= &__executable_start && (char *)ra < &etext; }
template<class F> F real(const char *s) { return (F)dlsym(RTLD_NEXT, s); }
}
extern "C" {
static const bool trylocks = getenv("ESX_TRYLOCKS");     // the code uses try_lock (the engine says so)
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p)
{
    static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    int id = 1;
    while(id < n && !th[id].joined) ++id;
    if(id == n) ++n;
    th[id] = T();
    int k = r(t, a, run, new Start{f, p, id});
    th[id].real = *t;
    return k;
}
int pthread_join(pthread_t t, void **v)
{
    static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
    for(int i = 1; i < n; ++i) if(!th[i].joined && th[i].real == t) { point(OP_join, i); th[i].joined = true; break; }
    return r(t, v);
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if(!ours(__builtin_return_address(0))) return r(m);
    if(n > 1) point(OP_lock, (uint64_t)m);
    if(held((uint64_t)m)) end("a thread locks a mutex it holds");
    take(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    if(!ours(__builtin_return_address(0))) return r(m);
    if(n > 1) point();
    if(held((uint64_t)m)) return 16;
    take(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    if(!ours(__builtin_return_address(0))) return r(m);
    if(n > 1 && trylocks) point();
    if(!held((uint64_t)m) || owner((uint64_t)m) != me) end("a thread unlocks a mutex it does not hold");
    give(m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if(n < 2) end("every thread waits");
    point();
    if(!held((uint64_t)m) || owner((uint64_t)m) != me) end("a thread waits without holding the mutex");
    give(m);
    th[me].op = OP_cond; th[me].arg = (uint64_t)c; th[me].arg2 = (uint64_t)m;
    choose();
    th[me].op = OP_none;
    take(m);
    return 0;
}
static void wake(int i) { th[i].op = OP_lock; th[i].arg = th[i].arg2; }
int pthread_cond_signal(pthread_cond_t *c) noexcept
{
    if(n > 1) point();
    int w[16];
    unsigned s = 0;
    for(int i = 0; i < n; ++i) if(th[i].op == OP_cond && th[i].arg == (uint64_t)c) w[s++] = i;
    if(!s) return 0;
    unsigned k = s > 1 ? esx_next("wake") : 0;
    if(k >= s) { printf("ESX-DIVERGED schedule\n"); fflush(stdout); _exit(3); }
    wake(w[k]);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept
{
    if(n > 1) point();
    for(int i = 0; i < n; ++i) if(th[i].op == OP_cond && th[i].arg == (uint64_t)c) wake(i);
    return 0;
}
int _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, uint32_t *p, uint32_t v, bool, long, long)
{
    if(n > 1) point(OP_futex, (uint64_t)p, v);
    else if(__atomic_load_n(p, __ATOMIC_SEQ_CST) == v) end("every thread waits");
    return 1;
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(uint32_t *) {}
}

// atomic accesses, instrumented by -fsanitize=thread (no thread sanitizer library in the plain build)
namespace {
void at() { if(n > 1) point(); }
template<class F> F tsan(const char *s) { return (F)dlsym(RTLD_NEXT, s); }
}
#define ATOMIC(B, T) extern "C" { \
T __tsan_atomic##B##_load(const volatile T *p, int o) { at(); static auto r = tsan<T (*)(const volatile T *, int)>("__tsan_atomic" #B "_load"); return r ? r(p, o) : __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T *p, T v, int o) { at(); static auto r = tsan<void (*)(volatile T *, T, int)>("__tsan_atomic" #B "_store"); if(r) r(p, v, o); else __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int o) { at(); static auto r = tsan<T (*)(volatile T *, T, int)>("__tsan_atomic" #B "_exchange"); return r ? r(p, v, o) : __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
RMW(B, T, add) RMW(B, T, sub) RMW(B, T, and) RMW(B, T, or) RMW(B, T, xor) \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int q) { at(); static auto r = tsan<int (*)(volatile T *, T *, T, int, int)>("__tsan_atomic" #B "_compare_exchange_strong"); return r ? r(p, e, v, o, q) : __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int q) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, o, q); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int o, int q) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, o, q); return e; } \
}
#define RMW(B, T, F) T __tsan_atomic##B##_fetch_##F(volatile T *p, T v, int o) { at(); static auto r = tsan<T (*)(volatile T *, T, int)>("__tsan_atomic" #B "_fetch_" #F); return r ? r(p, v, o) : __atomic_fetch_##F(p, v, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
extern "C" int pthread_once(pthread_once_t *c, void (*f)())
{
    static auto r = real<int (*)(pthread_once_t *, void (*)())>("pthread_once");
    if(!ours(__builtin_return_address(0))) return r(c, f);
    if(__tsan_atomic32_load((uint32_t *)c, 5) == 2) return 0;
    __tsan_atomic32_store((uint32_t *)c, 2, 5);
    f();
    return 0;
}
extern "C" unsigned _ZNSt6thread20hardware_concurrencyEv() noexcept { return 2; }
