// C10: a task manager holds exactly the tasks that were added and have not ended.
#include "tm.h"
#include "wide.h"

static const Time tmos[] = {{1, 0}, {0, 0}};
static const Time ticks[] = {{10, 0}, {12, 0}};
static void go() {
  TMO = tmos, NTMO = 1;
  TICKS = ticks, NTICKS = 2;
  world();
}
#define ALL (~0u & ~(BIT(SETT) | BIT(REMOVEX) | BIT(THROW)))
#define GA "add an ended task", "add twice"
#define GB "remove a waiting task", "remove a running task", "operation on an absent id", "cancel a running task", "tick which is ignored", "first tick with deadlines"
#define GT "unstarted task timed out", "running task timed out", "waiting task timed out", "reset with tasks", "destroyed with tasks"
#define GL "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "replaced"
static const Scenario LIST[] = {
    {"one", go, 6, 7, -1, -1, false, "1 manager, 1 task: all operations from outside and from inside the body", {1, 1, (int)ALL, 0},
     {GA, "-", GB, GT, "destroyed by the body of a task", "only the manager refers to the task"}},
    {"two_tasks", go, 4, 5, -1, -1, false, "1 manager, 2 tasks acting on each other: all operations", {2, 1, (int)~BIT(THROW), 0}, {GA, "-", GB}},
    {"two_deep", go, 6, 7, -1, -1, false, "1 manager, 2 tasks: main operations, deeper",
     {2, 1, (int)(BIT(ADDT) | BIT(REMOVE) | BIT(START) | BIT(KILL) | BIT(TICK) | BIT(RESET) | BIT(DESTROY) | BIT(DSTART) | BIT(YIELD)), 0},
     {GA, "-", "remove a waiting task", "remove a running task", "operation on an absent id", "-", "tick which is ignored", "first tick with deadlines", GT}},
    {"two_managers", go, 5, 6, -1, -1, false, "2 managers, 1 task", {1, 2, (int)ALL, 0}, {GA, "add to a second manager", GB}},
    {"two_by_two", go, 4, 5, -1, -1, false, "2 managers, 2 tasks", {2, 2, (int)(ALL & ~(BIT(DCANCEL) | BIT(CANCEL))), 0}, {GA, "add to a second manager"}},
    {"followed", go, 5, 6, -1, -1, false, "1 manager, 2 tasks of which one follows the other", {2, 1, (int)(ALL & ~(BIT(ADDT) | BIT(CANCEL))), 1}, {GA}},
    {"throwing", go, 5, 6, -1, -1, false, "1 manager, 2 tasks whose bodies throw",
     {2, 1, (int)(BIT(ADDT) | BIT(REMOVE) | BIT(START) | BIT(CANCEL) | BIT(KILL) | BIT(TICK) | BIT(RESET) | BIT(YIELD) | BIT(THROW)), 0},
     {"-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "collected", "thrown"}},
    {"throwing_two", go, 7, 8, -1, -1, false, "the same with two exceptions in a call",
     {2, 1, (int)(BIT(ADDT) | BIT(DSTART) | BIT(TICK) | BIT(RESET) | BIT(YIELD) | BIT(THROW)), 0},
     {"-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "thrown", "two exceptions"}},
    {"long_one", go, 60, 100, -1, -1, false, "long histories with 1 manager, 1 task and their successors: every sequence which repeats after so many operations", {1, 1, (int)(ALL & ~BIT(THROW)), 0}, {GL}, 5, 6, 14},
    {"long_two", go, 60, 100, -1, -1, false, "the same with 2 tasks", {2, 1, (int)(BIT(ADDT) | BIT(REMOVE) | BIT(START) | BIT(KILL) | BIT(TICK) | BIT(RESET) | BIT(DSTART) | BIT(YIELD)), 0}, {GL}, 5, 6, 14},
    {"many", wide::managers, 1, 2, -1, -1, false, "up to 5 tasks in a manager, of every kind, and one operation", {5}, {"reset", "destroyed", "ticks", "kill by id", "cancel by id", "remove by id", "start by id", "kills", "resumes"}},
    {"very_many", wide::managers, 1, 1, -1, -1, false, "8 to 64 tasks in a manager, of every kind, and one operation", {0, 8}, {"reset", "destroyed", "ticks", "kill by id", "cancel by id", "remove by id", "start by id", "kills", "resumes"}},
};
MC_MAIN(LIST)
