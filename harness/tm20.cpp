// C12: managers of C++20 tasks.
#include "co20.h"
#include "wide20.h"
#define CORE (BIT(NEWT) | BIT(DROPT) | BIT(KILL) | BIT(WAITRAW) | BIT(RAW))
#define AM (MBIT(NEWM) | MBIT(DROPM) | MBIT(RESET) | MBIT(ADD) | MBIT(REMOVE) | MBIT(MSTART) | MBIT(MCANCEL) | MBIT(MKILL))
#define TM (MBIT(NEWM) | MBIT(DROPM) | MBIT(RESET) | MBIT(ADD) | MBIT(TICK) | MBIT(SETTIME))
#define P(x, f) (int)((x) | (f) << 16)
static const Scenario LIST[] = {
    {"one", run, 7, 8, -1, -1, false, "2 tasks in 2 managers, from outside and from bodies", {(int)CORE, 2, 0, 0, 0, P(AM, 2)}, {"killed", "task dropped unfinished", "-", "-", "-", "-", "-", "-", "reset", "added", "refused", "by id"}},
    {"wait", run, 8, 9, -1, -1, false, "tasks which wait for each other in a manager", {(int)((CORE | BIT(AWAITT) | BIT(START)) & ~BIT(KILL)), 2, 0, 0, 0, P(MBIT(NEWM) | MBIT(RESET) | MBIT(ADD) | MBIT(REMOVE) | MBIT(DROPM), 0)}, {"-", "task dropped unfinished", "-", "-", "-", "-", "-", "-", "reset", "added", "refused", "by id"}},
    {"then", run, 8, 8, -1, -1, false, "follow-ups of tasks in a manager", {(int)(BIT(NEWT) | BIT(DROPT) | BIT(THENC) | BIT(THENT) | BIT(DROPTH) | BIT(WAITRAW) | BIT(RAW)), 2, 0, 0, 0, P(MBIT(NEWM) | MBIT(RESET) | MBIT(ADD) | MBIT(REMOVE) | MBIT(MSTART), 0)}, {"-", "task dropped unfinished", "-", "-", "-", "-", "-", "-", "reset", "added", "-", "by id"}},
    {"mixed", run, 8, 9, -1, -1, false, "tasks in a manager which wait for callables and a generator", {(int)(BIT(NEWT) | BIT(DROPT) | BIT(NEWC) | BIT(AWAITC) | BIT(AWAITN) | BIT(WAITRAW) | BIT(RAW) | BIT(NEWG) | BIT(SET) | BIT(AWAITG)), 1, 1, 0, 0, P(MBIT(NEWM) | MBIT(RESET) | MBIT(ADD) | MBIT(MCANCEL) | MBIT(MSTART), 0)}, {"-", "task dropped unfinished", "-", "-", "-", "-", "-", "-", "reset", "added", "-", "by id"}},
    {"times", run, 7, 8, -1, -1, false, "2 tasks with timeouts in managers", {(int)(CORE | BIT(START)), 2, 0, 0, 0, P(TM | MBIT(REMOVE), 0)}, {"killed", "task dropped unfinished", "-", "-", "-", "-", "-", "-", "reset", "added", "refused", "-", "timed out"}},
    {"many", wide::managers, 1, 2, -1, -1, false, "up to 7 tasks in a manager, of every kind, and one operation", {7}, {"reset", "destroyed", "ticks", "killed", "cancelled", "removed", "started", "event"}},
    {"very_many", wide::managers, 1, 1, -1, -1, false, "8 to 64 tasks in a manager, of every kind, and one operation", {0, 57}, {"reset", "destroyed", "ticks", "killed", "cancelled", "removed", "started", "event"}},
    {"long", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, 2 tasks in 2 managers", {(int)(CORE | BIT(START)), 2, 0, 0, 0, P(AM & ~MBIT(DROPM), 2)}, {"killed", "task dropped unfinished"}, 5, 7, 8},
};
MC_MAIN(LIST)
