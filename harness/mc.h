// A small stateless model checker for sequential C++ code.
//
// A scenario is a deterministic function of the choices it draws with
// Ctx::pick(). The explorer enumerates EVERY choice vector (depth first),
// shards the tree over forked worker processes, and treats each of the
// following as a violation: a failed check, an unexpected library crash, an
// AddressSanitizer report or signal, a leak, and a hang. Every violation is
// replayed from its choice vector in a fresh process before it is reported.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <stdint.h>
#include <stdio.h>

#include <string>
#include <utility>
#include <vector>

namespace mc {
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

struct Skip {};  // Thrown to abandon an execution (pruned or other shard).

class Ctx {
 public:
  // Chooses one of n alternatives (0 <= result < n).
  int pick(int n);
  template <typename T, size_t N>
  const T& pick_of(const T (&xs)[N]) {
    return xs[pick(int(N))];
  }
  bool flip() { return pick(2) == 1; }

  // Calls f(i) for every i in [0, n), split over executions of `chunk` each.
  template <typename F>
  void bulk(u64 n, u64 chunk, F&& f) {
    u64 chunks = (n + chunk - 1) / chunk;
    u64 c = u64(pick(int(chunks)));
    pick(1);  // Reach the depth at which executions are shared out.
    for (u64 i = c * chunk; i < n && i < (c + 1) * chunk; ++i) {
      step();
      state(mix(0x9e37, i));
      bulk_index = i;
      f(i);
    }
  }
  u64 bulk_index = 0;

  // Records one transition (an operation applied to the implementation).
  void step();
  // Records a (canonical) state; returns nothing.
  void state(u64 hash);
  // Explicit-state pruning: abandons this execution if the canonical state
  // `hash` was already expanded with at least `remaining` operations to go.
  void prune(u64 hash, int remaining);

  // Trace text; only kept when tracing.
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  bool tracing() const { return tracing_; }
  bool thorough() const { return thorough_; }

  static u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
  }

  bool tracing_ = false;
  bool thorough_ = false;
};

// Reports a violation. `key` identifies the failing site/input for the
// known-findings list; it must not depend on anything volatile.
[[noreturn]] void fail_key(const char* key, const char* fmt, ...)
  __attribute__((format(printf, 2, 3)));
[[noreturn]] void fail(const char* fmt, ...)
  __attribute__((format(printf, 1, 2)));

#define CHECK(cond_, ...)                                              \
  do {                                                                 \
    if (!(cond_))                                                      \
      ::mc::fail_at(__FILE__, __LINE__, #cond_, ::mc::str(__VA_ARGS__)); \
  } while (0)

[[noreturn]] void fail_at(const char* file, int line, const char* cond,
                          const std::string& msg);
inline std::string str() { return {}; }
std::string str(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Runs f; returns true if the library crashed (ended the process) inside f.
// Objects that f was mutating must not be used after a crash.
bool crashes_impl(void (*f)(void*), void* arg);
template <typename F>
bool crashes(F&& f) {
  return crashes_impl([](void* p) { (*static_cast<F*>(p))(); }, &f);
}
// Runs f; returns the exit code if f ended the process, or -1 if it returned.
int exits_impl(void (*f)(void*), void* arg);
template <typename F>
int exits(F&& f) {
  return exits_impl([](void* p) { (*static_cast<F*>(p))(); }, &f);
}
// What was written to stdout/stderr since the last call (truncates).
std::string take_output();

// Number of live malloc blocks attributed to the current execution.
i64 live_blocks();
// Bookkeeping sections: allocations made inside are not attributed.
struct Internal {
  Internal();
  ~Internal();
  bool saved;
};

enum Flags : unsigned {
  None = 0,
  LeakCheck = 1,   // the body must leave no malloc block behind
  ThoroughOnly = 2,
};
struct Scenario {
  const char* name;
  void (*body)(Ctx&);
  unsigned flags;
  const char* bounds;  // human readable statement of the enumerated space
  Scenario* next;
  Scenario(const char* name, const char* bounds, void (*body)(Ctx&),
           unsigned flags);
};

#define SCENARIO(name_, bounds_, flags_)                                  \
  static void mc_body_##name_(::mc::Ctx& c);                              \
  static ::mc::Scenario mc_scn_##name_(#name_, bounds_, mc_body_##name_, \
                                       flags_);                           \
  static void mc_body_##name_(::mc::Ctx& c)

// For scenarios instantiated from templates.
#define SCENARIO_T(name_, bounds_, flags_, ...)                        \
  static ::mc::Scenario mc_scn_##name_(                                 \
    #name_, bounds_, [](::mc::Ctx& c) { __VA_ARGS__(c); }, flags_)
}  // namespace mc

#endif
