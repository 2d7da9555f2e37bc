// Schedule perturbation: pthread mutex calls and condition-variable notifications of this program are wrapped
// (linker --wrap) and randomly delayed, so that windows around them are hit.
#pragma once
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <atomic>
#include <cstdint>

namespace vp {
  inline std::atomic<uint64_t> &seed() {
    static std::atomic<uint64_t> s{1};
    return s;
  }
  inline std::atomic<int> &level() { // 0 off, 1 rare, 2 often
    static std::atomic<int> l{0};
    return l;
  }
  inline thread_local uint64_t tl_state = 0;
  inline thread_local uint64_t tl_gen   = 0;
  inline std::atomic<uint64_t> &tids() {
    static std::atomic<uint64_t> t{0};
    return t;
  }
  inline std::atomic<int64_t> &points() {
    static std::atomic<int64_t> p{0};
    return p;
  }
  inline uint64_t rnd() {
    uint64_t g = seed().load(std::memory_order_relaxed);
    if (tl_gen != g) tl_gen = g, tl_state = g * 0x9e3779b97f4a7c15ull + tids().fetch_add(1, std::memory_order_relaxed) * 0xd1342543de82ef95ull + 1;
    uint64_t z = (tl_state += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    return z ^ (z >> 29);
  }
  inline void nap(int us) {
    timespec t{0, us * 1000};
    nanosleep(&t, nullptr);
  }
  inline void point() {
    int l = level().load(std::memory_order_relaxed);
    if (!l) return;
    uint64_t r = rnd() % (l > 1 ? 12 : 60);
    if (r == 0) nap((int) (rnd() % 120));
    else if (r < 3) sched_yield();
    else if (r < 4)
      for (volatile int i = 0; i < 400; i = i + 1) {}
    if (r < 4) points().fetch_add(1, std::memory_order_relaxed);
  }
} // namespace vp

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  vp::point();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = __real_pthread_mutex_unlock(m);
  vp::point();
  return r;
}
void __real__ZNSt18condition_variable10notify_oneEv(void *c);
void __real__ZNSt18condition_variable10notify_allEv(void *c);
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) {
  vp::point();
  __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __wrap__ZNSt18condition_variable10notify_allEv(void *c) {
  vp::point();
  __real__ZNSt18condition_variable10notify_allEv(c);
}
}
