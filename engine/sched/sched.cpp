// Compiled without sanitizer instrumentation: the hand-over between threads
// must not look like synchronisation to the race detector.
#include "sched.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <new>
#include <malloc.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <stdarg.h>
#include <linux/futex.h>
#define NOI __attribute__((no_instrument_function))
namespace sched {
bool inlineThreads = false;
static const size_t STACK = 8 << 20, ARENA = (size_t)256 << 20;
enum St { READY, BLOCKED, DONE };
struct Th { int id; int st; const void* on; int fut; int nopre; uint64_t slice; bool timed; char* arena; size_t used; char* stack; };
static Th th[MAXT]; static int nth; static int cur = -1; static Plan plan; static Trace* tr; static uint64_t counted; static int nextPre;
static __thread Th* me __attribute__((tls_model("initial-exec")));
NOI static long sys6(long n, long a, long b, long c, long d, long e, long f) { long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
NOI static long futex(int* a, int op, int v) { return sys6(SYS_futex, (long)a, op, v, 0, 0, 0); }
NOI static void wake(Th* t) { __atomic_store_n(&t->fut, 1, __ATOMIC_SEQ_CST); futex(&t->fut, FUTEX_WAKE_PRIVATE, 1); }
NOI static void park(Th* t) { while (!__atomic_load_n(&t->fut, __ATOMIC_SEQ_CST)) futex(&t->fut, FUTEX_WAIT_PRIVATE, 0); __atomic_store_n(&t->fut, 0, __ATOMIC_SEQ_CST); cur = t->id; t->slice = 0; }
NOI static unsigned enabled() { unsigned m = 0; for (int i = 0; i < nth; i++) if (th[i].st == READY) m |= 1u << i; return m; }
NOI static void give(int to) { Th* t = me; if (to == t->id) return; wake(&th[to]); park(t); }
// the current thread cannot go on: somebody else does
NOI static int pickForced() { unsigned e = enabled(); int k = __builtin_popcount(e); if (!k) { for (int i = 0; i < nth; i++) if (th[i].st == BLOCKED && th[i].timed) { th[i].st = READY; return i; } return -1; } int c = 0; if (k > 1) { if (tr->forced < 16) { tr->forcedOptions[tr->forced] = k; tr->forcedAt[tr->forced] = counted; c = tr->forced < plan.nc ? plan.choice[tr->forced] : 0; } tr->forced++; if (c >= k) c = k - 1; } for (int i = 0; i < nth; i++) if (e >> i & 1 && c-- == 0) return i; return -1; }
NOI static void block(const void* on, bool timed = false) { Th* t = me; t->st = BLOCKED; t->on = on; t->timed = timed; tr->blockedTimes++; int n = pickForced(); if (n < 0) { tr->deadlock = 1; _exit(97); } if (n != t->id) { wake(&th[n]); park(t); } }
NOI static void unblock(const void* on) { for (int i = 0; i < nth; i++) if (th[i].st == BLOCKED && th[i].on == on) th[i].st = READY; }
NOI void point(int kind) {
  Th* t = me; if (!t || t->nopre) return;
  tr->total++; if (kind) tr->coarse++;
  if (++t->slice > 2000000) { unsigned e = enabled() & ~(1u << t->id); if (e) { t->slice = 0; give(__builtin_ctz(e)); return; } } // somebody may be spinning
  if (!plan.fine && !kind) return;
  uint64_t k = counted++; if (k < MAXTRACE) { Point& p = tr->pt[k]; p.thread = t->id; p.enabled = enabled(); p.kind = kind; tr->n = k + 1; }
  if (nextPre < plan.np && plan.p[nextPre].at == k) { int to = plan.p[nextPre++].to; if (to != t->id && th[to].st == READY) { tr->preempted++; give(to); } }
}
// a lock in the stack or the arena of the thread, which no other thread has used so far, orders nothing
static const void* sharedLocks[64]; static int nShared;
NOI static int lockKind(const void* m) { Th* t = me; const char* p = (const char*)m; for (int i = 0; i < nShared; i++) if (sharedLocks[i] == m) return COARSE; if ((p >= t->stack && p < t->stack + STACK) || (t->arena && p >= t->arena && p < t->arena + ARENA)) return FINE;
  for (int i = 0; i < nth; i++) if (i != t->id) { Th* o = &th[i]; if (((p >= o->stack && p < o->stack + STACK) || (o->arena && p >= o->arena && p < o->arena + ARENA)) && nShared < 64) sharedLocks[nShared++] = m; } return COARSE; }
// a thread that computes for long without a point may be waiting for another
static uint64_t seen; NOI static void tick(int) { Th* t = me; if (!t || t->id != cur || t->st != READY) return; if (tr->total != seen) { seen = tr->total; return; } unsigned e = enabled() & ~(1u << t->id); if (e) { int er = errno; give(__builtin_ctz(e)); errno = er; } }
struct Start { const std::function<void(int)>* f; int i; };
NOI static void* body(void* p) { Start* s = (Start*)p; Th* t = &th[s->i]; park(t); me = t; (*s->f)(s->i); me = nullptr; t->st = DONE; int n; { Th* keep = me; n = pickForced(); me = keep; } if (n >= 0) wake(&th[n]); else for (int i = 0; i < nth; i++) if (th[i].st == BLOCKED) { tr->deadlock = 1; _exit(97); } return nullptr; }
NOI void run(int n, const std::function<void(int)>* fns, const Plan& pl, Trace* t) {
  plan = pl; tr = t; nth = n; nShared = 0; counted = 0; nextPre = 0; tr->n = tr->total = tr->coarse = 0; tr->forced = tr->preempted = tr->deadlock = 0; tr->blockedTimes = 0; pthread_t p[MAXT]; static Start st[MAXT];
  for (int i = 0; i < n; i++) { memset(&th[i], 0, sizeof th[i]); th[i].id = i; th[i].st = READY; st[i] = Start{&fns[i], i};
#ifdef VF_POISON
    th[i].arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (th[i].arena == MAP_FAILED) th[i].arena = nullptr;
#endif
  }
  // stacks of their own: those of the threads that a fork left behind still hold live objects
  for (int i = 0; i < n; i++) { pthread_attr_t a; pthread_attr_init(&a); size_t sz = STACK; void* m = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED || pthread_attr_setstack(&a, m, sz) || pthread_create(&p[i], &a, body, &st[i])) { perror("thread"); _exit(96); } pthread_attr_destroy(&a); th[i].stack = (char*)m;
  }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr); struct itimerval it = {{0, 250000}, {0, 250000}}; setitimer(ITIMER_PROF, &it, nullptr);
  int f = pickForced(); wake(&th[f]); for (int i = 0; i < n; i++) pthread_join(p[i], nullptr);
  memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
}
template <class F> NOI static F next(const char* name) { void* f = nullptr;
#ifndef VF_TSAN
  if (!strncmp(name, "pthread_cond", 12)) f = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
#endif
  if (!f) f = dlsym(RTLD_NEXT, name); return (F)f; }
#define REAL(name) static decltype(&::name) real; if (!real) real = sched::next<decltype(&::name)>(#name)
} // namespace sched
using namespace sched;
extern "C" {
// the server starts a thread for its start(); it runs in the caller instead (the race detector is blind in the forks of a process with several threads)
NOI int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) noexcept { REAL(pthread_create); if (sched::inlineThreads) { sched::inlineThreads = false; *t = pthread_self(); f(p); return 0; } return real(t, a, f, p); }
NOI void trrouting_verif_point(const char*) { point(COARSE); }
NOI void __cyg_profile_func_enter(void*, void*) { point(FINE); }
NOI void __cyg_profile_func_exit(void*, void*) { point(FINE); }
NOI int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_trylock); if (me) point(lockKind(m)); return real(m); }
NOI int pthread_mutex_lock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_lock); if (!me) return real(m); static decltype(&::pthread_mutex_trylock) tl; if (!tl) tl = sched::next<decltype(tl)>("pthread_mutex_trylock"); point(lockKind(m)); for (;;) { int r = tl(m); if (r != EBUSY) return r; block(m); } }
NOI int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_unlock); int r = real(m); if (me) { unblock(m); point(lockKind(m)); } return r; }
NOI int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_rdlock); if (!me) return real(m); static decltype(&::pthread_rwlock_tryrdlock) tl; if (!tl) tl = sched::next<decltype(tl)>("pthread_rwlock_tryrdlock"); point(lockKind(m)); for (;;) { int r = tl(m); if (r != EBUSY) return r; block(m); } }
NOI int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_wrlock); if (!me) return real(m); static decltype(&::pthread_rwlock_trywrlock) tl; if (!tl) tl = sched::next<decltype(tl)>("pthread_rwlock_trywrlock"); point(lockKind(m)); for (;;) { int r = tl(m); if (r != EBUSY) return r; block(m); } }
NOI int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_tryrdlock); if (me) point(lockKind(m)); return real(m); }
NOI int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_trywrlock); if (me) point(lockKind(m)); return real(m); }
NOI int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_unlock); int r = real(m); if (me) { unblock(m); point(lockKind(m)); } return r; }
NOI static int waitCond(pthread_cond_t* c, pthread_mutex_t* m, bool timed) { pthread_mutex_unlock(m); block(c, timed); pthread_mutex_lock(m); return 0; }
NOI int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait); return me ? waitCond(c, m, false) : real(c, m); }
NOI int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { REAL(pthread_cond_timedwait); return me ? waitCond(c, m, true) : real(c, m, t); }
NOI int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { static int (*real)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return me ? waitCond(c, m, true) : real(c, m, k, t); }
NOI int pthread_cond_signal(pthread_cond_t* c) noexcept { REAL(pthread_cond_signal); if (me) unblock(c); return real(c); }
NOI int pthread_cond_broadcast(pthread_cond_t* c) noexcept { REAL(pthread_cond_broadcast); if (me) unblock(c); return real(c); }
NOI int pthread_once(pthread_once_t* o, void (*f)(void)) { REAL(pthread_once); if (me) me->nopre++; int r = real(o, f); if (me) me->nopre--; return r; }
NOI int sched_yield() noexcept { if (me) { unsigned e = enabled() & ~(1u << me->id); if (e) { int n = me->id; do n = (n + 1) % nth; while (!(e >> n & 1)); give(n); } return 0; } return sys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
// futures, call_once and atomic waits of libstdc++ come here
NOI long syscall(long n, ...) noexcept { va_list v; va_start(v, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(v, long); va_end(v);
  if (me && n == SYS_futex) { int op = a[1] & 127; int* p = (int*)a[0]; if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { point(COARSE); if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; } block(p, a[3] != 0); return 0; } if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { unblock(p); point(COARSE); return 1; } }
  long r = sys6(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
// function-local statics: their first use is not interrupted
NOI int __cxa_guard_acquire(void* g) { static int (*real)(void*); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_guard_acquire"); int r = real(g); if (r && me) me->nopre++; return r; }
NOI void __cxa_guard_release(void* g) { static void (*real)(void*); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_guard_release"); real(g); if (me) me->nopre--; }
NOI void __cxa_guard_abort(void* g) { static void (*real)(void*); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_guard_abort"); real(g); if (me) me->nopre--; }
}
#ifdef VF_POISON
// In a scheduled run each thread allocates from an arena of its own, which is
// never used twice; what is freed is overwritten, so that reading it gives a
// wrong answer or a crash.
static bool poison = false;
struct Head { size_t size; size_t magic; };
NOI static void* arenaNew(size_t n, size_t align) { Th* t = me; size_t o = (t->used + sizeof(Head) + align - 1) / align * align; if (o + n > ARENA) return nullptr; t->used = o + n; Head* h = (Head*)(t->arena + o) - 1; h->size = n; h->magic = 0x5eed; return t->arena + o; }
NOI static void* alloc(size_t n, size_t align) { if (poison && me && me->arena) return arenaNew(n, align < 16 ? 16 : align); if (align <= 16) return malloc(n ? n : 1); void* p = nullptr; return posix_memalign(&p, align, n ? n : 1) ? nullptr : p; }
NOI static void release(void* p) { if (!p) return; for (int i = 0; i < nth; i++) if (th[i].arena && (char*)p > th[i].arena && (char*)p < th[i].arena + ARENA) { Head* h = (Head*)p - 1; if (h->magic != 0x5eed) { fprintf(stderr, "ERROR: freed twice\n"); abort(); } h->magic = 0xdead; memset(p, 0xDB, h->size); return; } if (poison) { if (nth) memset(p, 0xDB, malloc_usable_size(p)); } else free(p); }
NOI void sched::neverReuse() { poison = true; }
#else
NOI static void* alloc(size_t n, size_t align) { if (align <= 16) return malloc(n ? n : 1); void* p = nullptr; return posix_memalign(&p, align, n ? n : 1) ? nullptr : p; }
NOI static void release(void* p) { free(p); }
NOI void sched::neverReuse() {}
#endif
NOI void* operator new(size_t n) { point(FINE); void* p = alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
NOI void* operator new[](size_t n) { return operator new(n); }
NOI void* operator new(size_t n, const std::nothrow_t&) noexcept { point(FINE); return alloc(n, 16); }
NOI void* operator new[](size_t n, const std::nothrow_t&) noexcept { point(FINE); return alloc(n, 16); }
NOI void* operator new(size_t n, std::align_val_t a) { point(FINE); void* p = alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
NOI void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
NOI void operator delete(void* p) noexcept { point(FINE); release(p); }
NOI void operator delete[](void* p) noexcept { operator delete(p); }
NOI void operator delete(void* p, size_t) noexcept { operator delete(p); }
NOI void operator delete[](void* p, size_t) noexcept { operator delete(p); }
NOI void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
NOI void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
NOI void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
NOI void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
NOI void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
NOI void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
