// C11: timeouts of stackful tasks in a task manager fire on the first tick after the deadline and never before.
#include "tm.h"
#include "wide.h"

// timeouts: 1 ns, almost a second, exactly a second, with a carry, none
static const Time tmos[] = {{0, 1}, {0, 999999999}, {1, 0}, {1, 999999998}, {0, 0}, {-5, 0}, {0, -1}};
static Time ticks[8];
static const Time offs[] = {{0, 0}, {0, 1}, {0, 2}, {0, 999999999}, {1, 0}, {1, 1}, {2, 0}, {3, 5}};
static void go() {
  int bases = param(4);
  static const Time base[] = {{10, 1}, {10, 999999999}, {0x7ffffffe, 500000000}, {0xfffffffe, 999999998}, {0, 1}};
  Time b = base[bases > 1 ? choose(bases, "time base") : 0];
  NTMO = param(5);
  TMO = tmos;
  NTICKS = is_history() ? 4 : 8;
  for (int i = 0; i < NTICKS; ++i) ticks[i] = b + offs[i];
  TICKS = ticks;
  world();
}
#define CORE (BIT(ADDT) | BIT(SETT) | BIT(TICK))
#define GT "tick which is ignored", "first tick with deadlines", "unstarted task timed out", "running task timed out", "waiting task timed out"
#define G7 "-", "-", "-", "-", "-", "-", "-"
#define GL "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "replaced"
static const Scenario LIST[] = {
    {"bases", go, 4, 5, -1, -1, false, "1 task: timeouts and ticks around deadlines with carries, at several time bases", {1, 1, (int)(CORE | BIT(DSTART) | BIT(YIELD)), 0, 5, 7},
     {G7, "tick which is ignored", "first tick with deadlines", "unstarted task timed out", "running task timed out"}},
    {"one", go, 5, 6, -1, -1, false, "1 task: timeouts and ticks around deadlines with carries", {1, 1, (int)(CORE | BIT(DSTART) | BIT(YIELD)), 0, 1, 5}, {G7, GT}},
    {"two", go, 5, 6, -1, -1, false, "2 tasks: timeouts and ticks", {2, 1, (int)(CORE | BIT(YIELD)), 0, 1, 3}, {G7, "tick which is ignored", "first tick with deadlines", "unstarted task timed out"}},
    {"ends", go, 5, 6, -1, -1, false, "2 tasks with timeouts which also end in other ways", {2, 1, (int)(BIT(ADDT) | BIT(TICK) | BIT(START) | BIT(REMOVE) | BIT(KILL) | BIT(YIELD)), 0, 1, 2},
     {G7, GT}},
    {"three", go, 5, 6, -1, -1, false, "3 tasks: timeouts and ticks", {3, 1, (int)(BIT(ADDT) | BIT(TICK)), 0, 1, 4}, {G7, "tick which is ignored", "first tick with deadlines", "unstarted task timed out"}},
    {"long_one", go, 60, 100, -1, -1, false, "long histories with 1 task and its successors: every sequence which repeats after so many operations", {1, 1, (int)((CORE & ~BIT(SETT)) | BIT(DSTART) | BIT(YIELD)), 0, 1, 3}, {GL}, 5, 6, 9},
    {"long_two", go, 60, 100, -1, -1, false, "the same with 2 tasks", {2, 1, (int)(CORE | BIT(YIELD)), 0, 1, 3}, {GL}, 4, 5, 16},
    {"many", wide::deadlines, 1, 2, -1, -1, false, "5 tasks with deadlines and ticks around them", {5, 0, 2}, {"some left", "all fired"}},
    {"very_many", wide::deadlines, 1, 1, -1, -1, false, "8 to 64 tasks with deadlines and ticks around them", {0, 8, 2}, {"some left", "all fired"}},
};
MC_MAIN(LIST)
