// Forced into the compilation of /repo's bindings: redirects the native code's clock and entropy to
// the simulator and makes allocations fail on demand.  /repo itself is not changed.
#pragma once
#include <bits/stdc++.h>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <new>
#include <random>
extern "C" {
typedef uint32_t (*dst_rand_fn)(void);
typedef int64_t (*dst_clock_fn)(void);
extern dst_rand_fn dst_rand_cb;
extern dst_clock_fn dst_clock_cb;
void dst_py_pause(int d); // the simulator's own Python code never fails
}
static inline uint32_t dst_rand_now() {
  if (!dst_rand_cb) return 4U;
  dst_py_pause(1);
  uint32_t v = dst_rand_cb();
  dst_py_pause(-1);
  return v;
}
static inline int64_t dst_clock_now() {
  if (!dst_clock_cb) return 0;
  dst_py_pause(1);
  int64_t v = dst_clock_cb();
  dst_py_pause(-1);
  return v;
}
namespace std {
struct sim_random_device {
  using result_type = unsigned int;
  sim_random_device() = default;
  template <class T> explicit sim_random_device(const T&) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffU; }
  double entropy() const noexcept { return 32.0; }
  result_type operator()() { return dst_rand_now(); }
};
namespace chrono {
struct sim_system_clock {
  using duration = nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = chrono::time_point<system_clock, duration>;
  static constexpr bool is_steady = false;
  static time_point now() noexcept {
    return time_point(duration(dst_clock_now()));
  }
};
} // namespace chrono
} // namespace std
#define random_device sim_random_device
#define system_clock sim_system_clock
#define high_resolution_clock sim_system_clock
#define steady_clock sim_system_clock
