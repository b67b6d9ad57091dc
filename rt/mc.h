// Bounded exhaustive explorer ("mc") for the real libcopp/libcotask code.
//
// A scenario is a C++ function that drives the library.  Every nondeterministic decision in it - which operation comes
// next (mc::choose) and which virtual thread runs next (implicit, at every atomic operation of the code under test) -
// is a numbered choice; the engine enumerates the whole choice tree depth first, re-executing the scenario from a
// restored initial state for each leaf.  Memory accesses are observed through the compiler's -fsanitize=thread calls,
// which this runtime implements itself (see mc.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>

namespace mc {

// --- decisions -----------------------------------------------------------------------------------------------------
int choose(int n, const char *tag = "");          // 0..n-1, enumerated exhaustively
// For very long histories, in scenarios which ask for it (Scenario::cycle): from now on choices are not enumerated one by
// one; they repeat after so many, and every such sequence is enumerated (each of the numbers from 0 to radix-1; a choice
// among n takes it modulo n).  In other scenarios it does nothing.
void history();
bool is_history();  // the scenario asks for it
[[noreturn]] void prune();                        // abandon this path silently (counted as pruned)
[[noreturn]] void done();                         // this path is complete and fine; abandon what is on the stack

// --- verdicts ------------------------------------------------------------------------------------------------------
// key: short stable identifier of what failed (used to match known findings); the text is for the human.
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(cond, key, ...)              \
  do {                                        \
    if (!(cond)) ::mc::fail(key, __VA_ARGS__); \
  } while (0)

// --- observation ---------------------------------------------------------------------------------------------------
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // printed only on replay
void state(uint64_t h);                                               // count a distinct abstract state
inline uint64_t hash_mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
void step();             // count a transition (an operation performed on the code under test)
void goal(int i);        // mark coverage goal i (0..63) of the scenario as reached
bool verbose();

// --- parameters ----------------------------------------------------------------------------------------------------
int depth();       // depth parameter of the scenario in this tier
int param(int i);  // extra parameters

// --- memory --------------------------------------------------------------------------------------------------------
size_t live_blocks();  // heap blocks allocated in this execution and not yet freed
size_t live_bytes();
bool is_live(const void *p);       // p lies in a live heap block
void ignore_leak(const void *p);   // do not count this block as live
void check_no_leak(const char *key);
void fail_alloc_after(long n);     // the n-th next allocation through operator new / malloc fails (-1: never)
void access_check(const void *p, size_t n, bool write);
bool in_arena(const void *p);
void set_heap_fill(bool on);
void race_strict(const void *p, size_t n);  // data races on this memory are errors even if the scenario tolerates others

// --- virtual threads -----------------------------------------------------------------------------------------------
void spawn_raw(void (*fn)(void *), void *arg);
void run_threads();   // run all spawned threads to completion under the scheduler
int tid();            // 0 = main, 1.. spawned
void sched();         // an explicit scheduling point
void no_preempt(bool on);  // suspend preemption for the calling thread (harness bookkeeping)
void end_thread_now();

template <class F>
void spawn(F f) {
  F *p = new F(std::move(f));
  spawn_raw(
      [](void *a) {
        F *q = static_cast<F *>(a);
        (*q)();
        delete q;
      },
      p);
}

// Harness memory that is shared between virtual threads without being looked at by the race detector.  Reset to zero
// for every execution.
void *scratch();
template <class T>
T *shared() {
  static_assert(sizeof(T) <= 262144, "scratch too small");
  return new (scratch()) T();
}

uint64_t *last_atomic64();  // the 8-byte atomic global that was changed last (null: none yet)

// --- environment under control --------------------------------------------------------------------------------------
void set_time(int64_t t);                  // value of time(nullptr); default 1700000000
void set_time_hook(int64_t (*fn)());       // or a function (may call choose)

struct Scenario {
  const char *name;
  void (*body)();
  int quick_depth, thorough_depth;      // mc::depth()
  int quick_preempt, thorough_preempt;  // preemption bound (-1: single threaded scenario)
  bool races_are_errors;
  const char *what;                     // one line for the evidence
  int p[6];
  const char *goals[24];
  int cycle, thorough_cycle, radix;     // see history()
};
int main(int argc, char **argv, const Scenario *list, size_t n);

// For code compiled without instrumentation.
struct NoCopy {
  NoCopy() = default;
  NoCopy(const NoCopy &) = delete;
  NoCopy &operator=(const NoCopy &) = delete;
};
}  // namespace mc

#define MC_MAIN(list)                                                     \
  int main(int argc, char **argv) {                                       \
    return mc::main(argc, argv, list, sizeof(list) / sizeof((list)[0])); \
  }
