// Random pauses before and after the critical sections, to reach interleavings
// that rarely happen by themselves: the lock functions are replaced by ones that
// sometimes yield or sleep. Not with ThreadSanitizer, which has its own.
#ifndef DELAYS_H_
#define DELAYS_H_
#include <atomic>
#include <cstdint>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include "xv.h"
namespace delays {
/// one in how many lock operations is delayed, 0: none
inline std::atomic<unsigned> rate{0};
inline std::atomic<std::uint64_t> made{0};
inline std::atomic<std::uint64_t> seeds{1};
/// delays within a scope
struct Scope {
  explicit Scope(unsigned r) { rate = r; }
  ~Scope() { rate = 0; xv::count("delayed lock operations", made.exchange(0)); }
};
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define DELAYS_NONE
#endif
#endif
#ifndef DELAYS_NONE
inline void pause() {
  const auto r = rate.load(std::memory_order_relaxed);
  if (r == 0) return;
  static thread_local std::uint64_t x = 0;
  if (x == 0) x = seeds.fetch_add(1, std::memory_order_relaxed) * 0x9e3779b97f4a7c15u | 1;
  x ^= x << 13; x ^= x >> 7; x ^= x << 17;
  if ((x >> 20) % r != 0) return;
  made.fetch_add(1, std::memory_order_relaxed);
  const auto k = (x >> 8) % 20;
  if (k < 9) { sched_yield(); return; }
  const timespec t{0, static_cast<long>(k == 19 ? 400000 : 1000 + (x >> 40) % 40000)};
  nanosleep(&t, nullptr);
}
template <typename F> F next(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#endif
} // namespace delays
#ifndef DELAYS_NONE
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  static int (*const real)(pthread_mutex_t *) = delays::next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  delays::pause();
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  static int (*const real)(pthread_mutex_t *) = delays::next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  const int r = real(m);
  delays::pause();
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
  static int (*const real)(pthread_rwlock_t *) = delays::next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
  delays::pause();
  return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
  static int (*const real)(pthread_rwlock_t *) = delays::next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
  delays::pause();
  return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
  static int (*const real)(pthread_rwlock_t *) = delays::next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
  const int r = real(m);
  delays::pause();
  return r;
}
}
#endif
#endif
