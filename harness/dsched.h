// A deterministic scheduler for harnesses with threads (-DVP_SCHED).
//
// The managed threads are real threads, of which one runs at a time.  They may
// be switched at every basic block of the code under test (its objects are
// built with -fsanitize-coverage=trace-pc), at every lock, unlock, wait and
// wake, at clock reads and allocations.  Where they are switched is a generated
// input: a schedule replays exactly and shrinks like any other choice.  A state
// in which every thread waits is a deadlock and is reported at once.
//
// The hand-over between threads is invisible to ThreadSanitizer (raw futex,
// builtins in functions that are not instrumented), so that it neither hides
// races nor invents them: a race is reported on the first schedule that makes
// both accesses without synchronisation in between.
#ifndef DSCHED_H_
#define DSCHED_H_
#include <functional>
#include <thread>

#ifndef VP_SCHED
namespace sched {
typedef std::thread Thread;
inline Thread Start(std::function<void()> fn) { return Thread(std::move(fn)); }
inline bool Managed() { return false; }
inline void Point() {}
}  // namespace sched
#else
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#define NOTSAN __attribute__((no_sanitize("thread"), no_sanitize("address"), no_sanitize("undefined"), noinline))

namespace sched {

inline long Raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

enum State { kNone, kReady, kBlocked, kSleeping, kDone };
const int kMax = 24;
struct T {
  int state;
  const void* on;
  uint64_t wake;    // when sleeping: the step at which it is ready again
  bool signaled;
  int64_t prio;
  int gate;
};
struct Config {
  // Points, counted from the last one, at which the running thread gives way to
  // the given other one and comes last from then on.
  int nchange = 0;
  uint32_t gap[64];
  uint32_t target[64];
  uint64_t seed = 0;         // priorities and random switches
  int p_sync = 0, p_block = 0;   // out of 1000: switch at a synchronisation, elsewhere
};

struct G {
  T t[kMax];
  int n = 0, cur = 0;
  bool on = false;
  uint64_t step = 0, next_change = 0, next_wake = UINT64_MAX, run = 0, rnd = 0;
  int ichange = 0;
  int64_t low = 0;
  int idle = 0;
  uint64_t switches = 0, preemptions = 0;
  Config cfg;
};
inline G g;
inline thread_local int t_id = -1;
inline thread_local int t_off = 0;

NOTSAN inline bool Managed() { return t_id >= 0 && g.on; }
NOTSAN inline uint64_t Rand() {
  uint64_t z = (g.rnd += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
NOTSAN inline bool Ready(int i) {
  return g.t[i].state == kReady || (g.t[i].state == kSleeping && g.t[i].wake <= g.step);
}
NOTSAN inline void Gate(int me) {
  while (__atomic_load_n(&g.t[me].gate, __ATOMIC_ACQUIRE) == 0) Raw(SYS_futex, (long)&g.t[me].gate, 128 /*wait, private*/, 0, 0, 0, 0);
  __atomic_store_n(&g.t[me].gate, 0, __ATOMIC_RELAXED);
}
NOTSAN inline void Awake(int i) {
  if (g.t[i].state == kSleeping) {
    g.t[i].state = kReady;
    g.next_wake = UINT64_MAX;
    for (int k = 0; k < g.n; ++k) if (g.t[k].state == kSleeping && g.t[k].wake < g.next_wake) g.next_wake = g.t[k].wake;
  }
}
// Hands over to thread i.
NOTSAN inline void Go(int i, bool wait) {
  int me = g.cur;
  Awake(i);
  if (i == me) return;
  ++g.switches;
  g.run = 0;
  g.cur = i;
  __atomic_store_n(&g.t[i].gate, 1, __ATOMIC_RELEASE);
  Raw(SYS_futex, (long)&g.t[i].gate, 129 /*wake, private*/, 1, 0, 0, 0);
  if (wait) Gate(me);
}
NOTSAN inline int Best(int except) {
  int b = -1;
  for (int i = 0; i < g.n; ++i) if (i != except && Ready(i) && (b < 0 || g.t[i].prio > g.t[b].prio)) b = i;
  return b;
}
NOTSAN inline int Random(int except) {
  int k = 0;
  for (int i = 0; i < g.n; ++i) if (i != except && Ready(i)) ++k;
  if (!k) return -1;
  k = Rand() % k;
  for (int i = 0; i < g.n; ++i) if (i != except && Ready(i) && k-- == 0) return i;
  return -1;
}
NOTSAN inline bool RandomMode() { return g.cfg.p_sync || g.cfg.p_block; }
// The thread to run when the current one cannot.
NOTSAN inline int Next() {
  for (;;) {
    int b = RandomMode() ? Random(-1) : Best(-1);
    if (b >= 0) return b;
    for (int i = 0; i < g.n; ++i) if (g.t[i].state == kSleeping && (b < 0 || g.t[i].wake < g.t[b].wake)) b = i;
    if (b >= 0) return b;
    // Nobody can run.  Perhaps a thread that is not managed holds something.
    if (++g.idle > 100) {
      fprintf(stderr, "Assertion: deadlock, every thread waits:");
      for (int i = 0; i < g.n; ++i) fprintf(stderr, " %d:%s", i, g.t[i].state == kDone ? "done" : "waits");
      fprintf(stderr, "\n");
      abort();
    }
    struct timespec ts = {0, 1000000};
    Raw(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
    for (int i = 0; i < g.n; ++i) if (g.t[i].state == kBlocked) g.t[i].state = kReady;
  }
}
NOTSAN inline void NextChange() {
  g.next_change = g.ichange < g.cfg.nchange ? g.step + g.cfg.gap[g.ichange] : UINT64_MAX;
}
NOTSAN inline void PointAt(bool sync) {
  if (t_id < 0 || !g.on || t_off) return;
  ++t_off;
  ++g.step;
  int to = -1;
  if (RandomMode()) {
    int p = sync ? g.cfg.p_sync : g.cfg.p_block;
    if (p && (int)(Rand() % 1000) < p) to = Random(t_id);
  } else if (g.step >= g.next_change) {
    g.t[t_id].prio = --g.low;
    int k = 0, want = g.cfg.target[g.ichange];
    for (int i = 0; i < g.n; ++i) if (i != t_id && Ready(i)) ++k;
    if (k) {
      want %= k;
      for (int i = 0; i < g.n; ++i) if (i != t_id && Ready(i) && want-- == 0) { to = i; break; }
    }
    ++g.ichange;
    NextChange();
  } else if (g.step >= g.next_wake) {
    int b = Best(-1);
    if (b >= 0) { Awake(b); if (b != t_id) to = b; }
  }
  if (to < 0 && ++g.run > 200000) {   // no thread runs for ever
    g.t[t_id].prio = --g.low;
    to = RandomMode() ? Random(t_id) : Best(t_id);
    g.run = 0;
  }
  if (to >= 0) { ++g.preemptions; Go(to, true); }
  --t_off;
}
NOTSAN inline void Point() { PointAt(true); }

// The current thread waits for addr; returns when woken, or now and then before.
NOTSAN inline void Block(const void* addr) {
  int me = t_id;
  g.t[me].state = kBlocked;
  g.t[me].on = addr;
  g.t[me].signaled = false;
  int b = Next();
  Go(b, true);
  g.t[me].state = kReady;
  g.t[me].on = nullptr;
}
NOTSAN inline int Wake(const void* addr, int most) {
  int k = 0;
  for (int i = 0; i < g.n && k < most; ++i)
    if ((g.t[i].state == kBlocked || g.t[i].state == kSleeping) && g.t[i].on == addr) {
      if (g.t[i].state == kSleeping) { g.t[i].wake = g.step; Awake(i); }
      g.t[i].state = kReady; g.t[i].signaled = true; ++k;
    }
  if (k) g.idle = 0;
  return k;
}
// Waits for addr or for some steps; true if woken.
NOTSAN inline bool Sleep(const void* addr, uint64_t steps) {
  int me = t_id;
  g.t[me].state = kSleeping;
  g.t[me].on = addr;
  g.t[me].signaled = false;
  g.t[me].wake = g.step + steps;
  if (g.t[me].wake < g.next_wake) g.next_wake = g.t[me].wake;
  Go(Next(), true);
  Awake(me);
  g.t[me].state = kReady;
  g.t[me].on = nullptr;
  return g.t[me].signaled;
}
NOTSAN inline uint64_t Steps(uint64_t ns) { uint64_t k = ns / 50; return k < 1 ? 1 : k > 20000 ? 20000 : k; }
NOTSAN inline void Yield() {
  g.t[t_id].prio = --g.low;
  ++g.step;
  int b = RandomMode() ? Random(t_id) : Best(t_id);
  if (b < 0) {   // somebody asleep may be what is waited for
    for (int i = 0; i < g.n; ++i) if (g.t[i].state == kSleeping && (b < 0 || g.t[i].wake < g.t[b].wake)) b = i;
  }
  if (b >= 0) Go(b, true);
}

NOTSAN inline int Add() {
  if (g.n >= kMax) { fprintf(stderr, "too many threads\n"); abort(); }
  int i = g.n;
  g.t[i] = T();
  g.t[i].state = kReady;
  g.t[i].prio = 1000000 + (int64_t)(Rand() % 1000000) * 64 + i;
  g.n = i + 1;
  return i;
}
// The calling thread becomes managed thread 0.
NOTSAN inline void Begin(const Config& c) {
  g.n = 0; g.cur = 0; g.step = 0; g.run = 0; g.ichange = 0; g.low = 0; g.idle = 0;
  g.next_wake = UINT64_MAX; g.switches = 0; g.preemptions = 0;
  g.cfg = c;
  g.rnd = c.seed;
  t_id = Add();
  NextChange();
  g.on = true;
}
NOTSAN inline void Finish() { g.on = false; t_id = -1; }

NOTSAN inline void Enter(int id) { Gate(id); t_id = id; }
NOTSAN inline void Exit() {
  int me = t_id;
  ++t_off;
  g.t[me].state = kDone;
  Wake(&g.t[me], kMax);
  int b = Next();
  t_id = -1;
  Go(b, false);
}
NOTSAN inline void WaitFor(int id) {
  while (g.t[id].state != kDone) Block(&g.t[id]);
}
class Thread {
 public:
  Thread() {}
  Thread(std::thread t, int id) : t_(std::move(t)), id_(id) {}
  bool joinable() const { return t_.joinable(); }
  void join() { if (Managed()) WaitFor(id_); t_.join(); }
 private:
  std::thread t_;
  int id_ = -1;
};
inline Thread Start(std::function<void()> fn) {
  ++t_off;   // nobody hands over to it before it exists
  int id = Add();
  Thread t(std::thread([id, fn] { Enter(id); fn(); Exit(); }), id);
  --t_off;
  return t;
}

template <class F> inline F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
typedef int (*MutexFn)(pthread_mutex_t*);
typedef int (*RwFn)(pthread_rwlock_t*);
}  // namespace sched

extern "C" {
NOTSAN void __sanitizer_cov_trace_pc(void) { sched::PointAt(false); }

#define SCHED_REAL(F, name) static sched::F real = sched::Real<sched::F>(name)
NOTSAN int pthread_mutex_lock(pthread_mutex_t* m) {
  SCHED_REAL(MutexFn, "pthread_mutex_lock");
  static sched::MutexFn real_try = sched::Real<sched::MutexFn>("pthread_mutex_trylock");
  if (!sched::Managed()) return real(m);
  sched::PointAt(true);
  int r;
  while ((r = real_try(m)) == EBUSY) sched::Block(m);
  sched::g.idle = 0;
  return r;
}
NOTSAN int pthread_mutex_trylock(pthread_mutex_t* m) {
  SCHED_REAL(MutexFn, "pthread_mutex_trylock");
  sched::PointAt(true);
  return real(m);
}
NOTSAN int pthread_mutex_unlock(pthread_mutex_t* m) {
  SCHED_REAL(MutexFn, "pthread_mutex_unlock");
  int r = real(m);
  if (sched::Managed()) { sched::Wake(m, sched::kMax); sched::PointAt(true); }
  return r;
}
NOTSAN int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  SCHED_REAL(RwFn, "pthread_rwlock_rdlock");
  static sched::RwFn real_try = sched::Real<sched::RwFn>("pthread_rwlock_tryrdlock");
  if (!sched::Managed()) return real(m);
  sched::PointAt(true);
  int r;
  while ((r = real_try(m)) == EBUSY) sched::Block(m);
  sched::g.idle = 0;
  return r;
}
NOTSAN int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  SCHED_REAL(RwFn, "pthread_rwlock_wrlock");
  static sched::RwFn real_try = sched::Real<sched::RwFn>("pthread_rwlock_trywrlock");
  if (!sched::Managed()) return real(m);
  sched::PointAt(true);
  int r;
  while ((r = real_try(m)) == EBUSY) sched::Block(m);
  sched::g.idle = 0;
  return r;
}
NOTSAN int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  SCHED_REAL(RwFn, "pthread_rwlock_unlock");
  int r = real(m);
  if (sched::Managed()) { sched::Wake(m, sched::kMax); sched::PointAt(true); }
  return r;
}
// A timed lock gives up after some steps without the lock becoming free.
NOTSAN static int SchedTimedLock(const void* m, int r, int (*again)(const void*)) {
  for (int i = 0; r == EBUSY; ++i) {
    bool woken = sched::Sleep(m, 2000);
    r = again(m);
    if (r == EBUSY && !woken && i >= 2) return ETIMEDOUT;
  }
  sched::g.idle = 0;
  return r;
}
#define SCHED_TIMED(fn, try_fn, type, F, params, args) \
  NOTSAN static int Again_##fn(const void* m) { \
    static sched::F real_try = sched::Real<sched::F>(#try_fn); \
    return real_try((type*)m); } \
  NOTSAN int fn params { \
    typedef int (*Fn) params; \
    static Fn real = sched::Real<Fn>(#fn); \
    if (!sched::Managed()) return real args; \
    sched::PointAt(true); \
    return SchedTimedLock(m, Again_##fn(m), Again_##fn); }
SCHED_TIMED(pthread_mutex_timedlock, pthread_mutex_trylock, pthread_mutex_t, MutexFn,
            (pthread_mutex_t* m, const struct timespec* ts), (m, ts))
SCHED_TIMED(pthread_mutex_clocklock, pthread_mutex_trylock, pthread_mutex_t, MutexFn,
            (pthread_mutex_t* m, clockid_t id, const struct timespec* ts), (m, id, ts))
SCHED_TIMED(pthread_rwlock_timedrdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t, RwFn,
            (pthread_rwlock_t* m, const struct timespec* ts), (m, ts))
SCHED_TIMED(pthread_rwlock_timedwrlock, pthread_rwlock_trywrlock, pthread_rwlock_t, RwFn,
            (pthread_rwlock_t* m, const struct timespec* ts), (m, ts))
SCHED_TIMED(pthread_rwlock_clockrdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t, RwFn,
            (pthread_rwlock_t* m, clockid_t id, const struct timespec* ts), (m, id, ts))
SCHED_TIMED(pthread_rwlock_clockwrlock, pthread_rwlock_trywrlock, pthread_rwlock_t, RwFn,
            (pthread_rwlock_t* m, clockid_t id, const struct timespec* ts), (m, id, ts))
NOTSAN int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*);
  static Fn real = sched::Real<Fn>("pthread_cond_wait");
  static sched::MutexFn unlock = sched::Real<sched::MutexFn>("pthread_mutex_unlock");
  if (!sched::Managed()) return real(cv, m);
  unlock(m);
  sched::Wake(m, sched::kMax);
  sched::Block(cv);
  return pthread_mutex_lock(m);
}
NOTSAN static int SchedTimedWait(pthread_cond_t* cv, pthread_mutex_t* m) {
  static sched::MutexFn unlock = sched::Real<sched::MutexFn>("pthread_mutex_unlock");
  unlock(m);
  sched::Wake(m, sched::kMax);
  bool woken = sched::Sleep(cv, 2000);
  pthread_mutex_lock(m);
  return woken ? 0 : ETIMEDOUT;
}
NOTSAN int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts) {
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  static Fn real = sched::Real<Fn>("pthread_cond_timedwait");
  return sched::Managed() ? SchedTimedWait(cv, m) : real(cv, m, ts);
}
NOTSAN int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static Fn real = sched::Real<Fn>("pthread_cond_clockwait");
  return sched::Managed() ? SchedTimedWait(cv, m) : real(cv, m, id, ts);
}
NOTSAN int pthread_cond_signal(pthread_cond_t* cv) {
  typedef int (*Fn)(pthread_cond_t*);
  static Fn real = sched::Real<Fn>("pthread_cond_signal");
  if (sched::Managed() && sched::Wake(cv, 1)) { sched::PointAt(true); return 0; }
  return real(cv);
}
NOTSAN int pthread_cond_broadcast(pthread_cond_t* cv) {
  typedef int (*Fn)(pthread_cond_t*);
  static Fn real = sched::Real<Fn>("pthread_cond_broadcast");
  int r = real(cv);
  if (sched::Managed()) { sched::Wake(cv, sched::kMax); sched::PointAt(true); }
  return r;
}
NOTSAN int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  typedef int (*Fn)(pthread_once_t*, void (*)(void));
  static Fn real = sched::Real<Fn>("pthread_once");
  // Not left in between: another thread that comes would wait out of our sight.
  ++sched::t_off;
  int r = real(o, fn);
  --sched::t_off;
  return r;
}
NOTSAN int sched_yield(void) noexcept {
  if (sched::Managed()) { sched::Yield(); return 0; }
  return sched::Raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
NOTSAN int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (sched::Managed()) { sched::Sleep(nullptr, sched::Steps(ts->tv_sec * 1000000000ull + ts->tv_nsec)); return 0; }
  return sched::Raw(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0) < 0 ? -1 : 0;
}
NOTSAN int clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec* rem) {
  if (sched::Managed()) { sched::Sleep(nullptr, flags ? 2000 : sched::Steps(ts->tv_sec * 1000000000ull + ts->tv_nsec)); return 0; }
  return -sched::Raw(SYS_clock_nanosleep, id, flags, (long)ts, (long)rem, 0, 0);
}
NOTSAN int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
// libstdc++ waits for futures, and for static initialisers, through syscall().
NOTSAN long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && sched::Managed()) {
    int op = a[1] & 127 & ~256 & ~128;
    int* addr = reinterpret_cast<int*>(a[0]);
    if (op == 0 /*wait*/ || op == 9 /*wait bitset*/) {
      if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != (int)a[2]) { errno = EAGAIN; return -1; }
      if (a[3]) { if (!sched::Sleep(addr, 2000)) { errno = ETIMEDOUT; return -1; } }
      else sched::Block(addr);
      return 0;
    }
    if (op == 1 || op == 10) {
      int k = sched::Wake(addr, a[2] < sched::kMax ? (int)a[2] : sched::kMax);
      long r = sched::Raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
      sched::PointAt(true);
      return k + (r > 0 ? r : 0);
    }
  }
  long r = sched::Raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
#ifdef __SANITIZE_THREAD__
// Instrumented code calls these for its atomic operations: more points.
#define SCHED_A(bits, type) \
  NOTSAN type __tsan_atomic##bits##_load(const volatile type* a, int mo) { \
    typedef type (*Fn)(const volatile type*, int); SCHED_NEXT(Fn, "__tsan_atomic" #bits "_load"); \
    sched::PointAt(true); return real(a, mo); } \
  NOTSAN void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { \
    typedef void (*Fn)(volatile type*, type, int); SCHED_NEXT(Fn, "__tsan_atomic" #bits "_store"); \
    sched::PointAt(true); real(a, v, mo); } \
  SCHED_R(bits, type, exchange) SCHED_R(bits, type, fetch_add) SCHED_R(bits, type, fetch_sub) \
  SCHED_R(bits, type, fetch_and) SCHED_R(bits, type, fetch_or) SCHED_R(bits, type, fetch_xor) \
  SCHED_X(bits, type, compare_exchange_strong) SCHED_X(bits, type, compare_exchange_weak)
#define SCHED_NEXT(Fn, name) static Fn real = sched::Real<Fn>(name)
#define SCHED_R(bits, type, op) \
  NOTSAN type __tsan_atomic##bits##_##op(volatile type* a, type v, int mo) { \
    typedef type (*Fn)(volatile type*, type, int); SCHED_NEXT(Fn, "__tsan_atomic" #bits "_" #op); \
    sched::PointAt(true); return real(a, v, mo); }
#define SCHED_X(bits, type, op) \
  NOTSAN int __tsan_atomic##bits##_##op(volatile type* a, type* c, type v, int mo, int fmo) { \
    typedef int (*Fn)(volatile type*, type*, type, int, int); SCHED_NEXT(Fn, "__tsan_atomic" #bits "_" #op); \
    sched::PointAt(true); return real(a, c, v, mo, fmo); }
SCHED_A(8, char)
SCHED_A(16, short)
SCHED_A(32, int)
SCHED_A(64, long)
#endif
}  // extern "C"
#endif  // VP_SCHED
#endif
