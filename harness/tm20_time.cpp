// C11: timeouts of C++20 tasks in a task manager fire on the first tick after the deadline and never before.
#include "co20.h"
#include "wide20.h"
#define P(x, f) (int)((x) | (f) << 16)
#define TM (MBIT(NEWM) | MBIT(ADD) | MBIT(TICK) | MBIT(SETTIME))
#define N7 "-", "-", "-", "-", "-", "-", "-"
static const Scenario LIST[] = {
    {"small", run, 8, 9, -1, -1, false, "timeouts of 2 C++20 tasks just before and after deadlines", {(int)(BIT(NEWT) | BIT(WAITRAW) | BIT(RAW)), 2, 0, 0, 0, P(TM | MBIT(MSTART), 1)}, {"-", "-", N7, "added", "-", "-", "timed out"}},
    {"ends", run, 7, 8, -1, -1, false, "C++20 tasks with timeouts which also end in other ways", {(int)(BIT(NEWT) | BIT(DROPT) | BIT(KILL) | BIT(WAITRAW) | BIT(RAW)), 2, 0, 0, 1, P(TM | MBIT(MSTART) | MBIT(REMOVE) | MBIT(RESET), 1)}, {"killed", "task dropped unfinished", "-", "-", "-", "-", "-", "-", "reset", "added", "-", "by id", "timed out"}},
    {"many", wide::deadlines, 1, 2, -1, -1, false, "5 tasks with deadlines and ticks around them", {5, 0, 3}, {"some left", "all fired"}},
    {"very_many", wide::deadlines, 1, 1, -1, -1, false, "8 to 64 tasks with deadlines and ticks around them", {0, 57, 2}, {"some left", "all fired"}},
    {"long", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, tasks with timeouts", {(int)(BIT(NEWT) | BIT(DROPT) | BIT(KILL) | BIT(WAITRAW) | BIT(RAW)), 2, 0, 0, 1, P(TM | MBIT(REMOVE), 1)}, {"killed", "task dropped unfinished"}, 5, 7, 8},
};
MC_MAIN(LIST)
