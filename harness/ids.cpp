// C14: ids are never zero and never repeated, across threads, allocations, roll-overs and clock movements.
#include <libcopp/utils/uint64_id_allocator.h>

#include <algorithm>
#include <cstring>

#include "mc.h"

using namespace mc;
using ids = copp::util::uint64_id_allocator;

static const int64_t EPOCH = 1577836800;  // 2020-01-01
struct Range {
  uint64_t lo, hi;
};
enum { MAXR = 4096 };
struct Sh {
  Range used[MAXR];
  int n;
  int64_t now;
  int reads;       // clock readings since it last moved
  int moves;       // clock movements still to be chosen while reading
  uint64_t got[8][80];
  int ngot[8];
};
static Sh *S;

static void take(uint64_t lo, uint64_t hi, const char *who) {
  MC_CHECK(lo != 0, "zero", "%s: id zero was handed out", who);
  for (int i = 0; i < S->n; ++i) {
    Range &r = S->used[i];
    MC_CHECK(hi < r.lo || lo > r.hi, "repeated", "%s: id %llx was handed out before", who, (unsigned long long)lo);
  }
  if (S->n && lo == hi && S->used[S->n - 1].hi + 1 == lo) {
    S->used[S->n - 1].hi = hi;
    return;
  }
  if (S->n >= MAXR) mc::fail("mc-internal", "too many ranges");
  S->used[S->n++] = {lo, hi};
}
static int64_t clock_fn() {
  if (S->moves > 0) {
    S->moves--;
    int c = choose(4, "clock");
    static const int64_t d[4] = {0, 1, -1, 2};
    if (d[c]) {
      S->now += d[c];
      S->reads = 0;
      if (c == 2) goal(5);
    }
  }
  // a clock that stands still moves on some time
  if (++S->reads > 3) {
    S->now++;
    S->reads = 0;
  }
  return S->now;
}
static bool last_layout_ok(uint64_t id) {
  uint64_t *seq = last_atomic64();
  return seq && *seq && (*seq << 5) == (id & ~31ull);
}
// Pretend that the rest of the sequence numbers of this second, but k, were used up by other threads.  Only where the
// counter was seen to work that way; everything skipped counts as handed out.
static bool skip_ahead(uint64_t last_id, int k) {
  if (!last_layout_ok(last_id)) return false;
  uint64_t *seq = last_atomic64();
  uint64_t v = *seq, p = (v | 0xFFFFFFull) - k;
  if (p <= v) return false;
  take((v + 1) << 5, (p << 5) + 31, "used up by others");
  *seq = p;
  return true;
}
static void alloc_n(int n, uint64_t *last, const char *who) {
  for (int i = 0; i < n; ++i) {
    uint64_t id = ids::allocate();
    take(id, id, who);
    *last = id;
  }
  step();
}

static void histories() {
  S = shared<Sh>();
  static const int64_t START[4] = {1700000000, EPOCH, EPOCH - 1, 0};
  S->now = START[choose(4, "clock at start")];
  set_time_hook(clock_fn);
  uint64_t last = 0;
  alloc_n(1, &last, "first");
  bool skipped = false;
  history();
  for (int st = 0; st < depth(); ++st) {
    switch (choose(5, "op")) {
      case 0:
        alloc_n(1, &last, "one");
        break;
      case 1:
        alloc_n(33, &last, "block");
        goal(0);
        break;
      case 2: {  // a short-lived thread
        uint64_t id = 0;
        spawn([&] { id = ids::allocate(); });
        run_threads();
        take(id, id, "other thread");
        last = id;
        step();
        goal(1);
        break;
      }
      case 3:
        // force a fresh block so that the counter is at its latest
        alloc_n(32, &last, "block");
        if (skip_ahead(last, choose(2, "left"))) {
          goal(2);
          skipped = true;
        } else
          prune();
        break;
      case 4: {
        int c = choose(3, "clock moves");
        static const int64_t d[3] = {-1, 1, -3};
        S->now += d[c];
        S->reads = 0;
        break;
      }
    }
  }
  alloc_n(65, &last, "last");
  if (skipped) goal(3);
  state(hash_mix(S->n, last >> 29));
}

// threads allocate at the same time; param 0: how much is left in the current second (-1: the very first allocation)
static void threads() {
  S = shared<Sh>();
  int n = param(0), m = param(1);
  static const int64_t START[2] = {1700000000, EPOCH};
  S->now = START[choose(2, "clock at start")];
  S->moves = 2;
  set_time_hook(clock_fn);
  int left = choose(4, "left") - 1;
  if (left >= 0) {
    uint64_t last = 0;
    alloc_n(1, &last, "main");
    if (!skip_ahead(last, left)) prune();
    goal(4);
  }
  for (int i = 0; i < n; ++i)
    spawn([i, m] {
      for (int k = 0; k < m; ++k) {
        uint64_t id = ids::allocate();
        S->got[i][S->ngot[i]++] = id;
      }
      step();
    });
  run_threads();
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < S->ngot[i]; ++k) take(S->got[i][k], S->got[i][k], "thread");
  uint64_t last = 0;
  alloc_n(34, &last, "main");
  state(S->n);
}
#define GS {"block used up", "short-lived thread", "end of a second's numbers", "allocated after it", "threads at the end of a second's numbers", "clock went back"}
static const Scenario LIST[] = {
    {"histories", histories, 6, 8, -1, -1, false, "one thread after another: single ids, whole blocks, roll-overs, clock moving back and forth", {0},
     {"block used up", "short-lived thread", "end of a second's numbers", "allocated after it", "-", "-"}},
    {"long", histories, 40, 80, -1, -1, false, "long histories: every sequence which repeats after so many choices", {0},
     {"block used up", "short-lived thread", "end of a second's numbers", "allocated after it", "-", "-"}, 5, 6, 5},
    {"threads_two", threads, 1, 1, 2, 3, false, "2 threads x 33 ids, from the start and around the end of a second's numbers", {2, 33},
     {"-", "-", "-", "-", "threads at the end of a second's numbers", "clock went back"}},
    {"threads_three", threads, 1, 1, 4, 6, false, "3 threads x 1 id", {3, 1},
     {"-", "-", "-", "-", "threads at the end of a second's numbers", "clock went back"}},
};
MC_MAIN(LIST)
