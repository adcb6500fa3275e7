// Virtual time.  The executable defines gettimeofday and clock_gettime, so the
// code under test reads the clock the harness sets, whichever call it uses.
#ifndef VCLOCK_H_
#define VCLOCK_H_
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

namespace vclock {
// Relaxed, so that reading the clock does not order threads for the race
// detector.
inline std::atomic<bool> g_on{false};
inline std::atomic<int64_t> g_us{0};
inline void (*g_hook)() = nullptr;  // runs whenever the clock is read
// Base far from zero: a plausible wall time, in microseconds.
const int64_t kBase = 1700000000ll * 1000000;
inline bool On() { return g_on.load(std::memory_order_relaxed); }
inline int64_t Now() { return g_us.load(std::memory_order_relaxed); }
inline void Start() { g_us.store(kBase, std::memory_order_relaxed); g_on.store(true, std::memory_order_relaxed); }
inline void Stop() { g_on.store(false, std::memory_order_relaxed); }
inline void AdvanceUs(int64_t d) { g_us.fetch_add(d, std::memory_order_relaxed); }
struct Scope { Scope() { Start(); } ~Scope() { Stop(); } };
}  // namespace vclock

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  if (vclock::On()) {
    if (vclock::g_hook) vclock::g_hook();
    int64_t t = vclock::Now();
    if (tv) { tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; }
    return 0;
  }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (vclock::On() && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_BOOTTIME ||
                       id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_REALTIME_COARSE)) {
    int64_t t = vclock::Now();
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
extern "C" time_t time(time_t* t) noexcept {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  if (t) *t = tv.tv_sec;
  return tv.tv_sec;
}
#endif
