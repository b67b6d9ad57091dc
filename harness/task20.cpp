// C19: C++20 tasks.
#include "co20.h"
#include "wide20.h"
#define CORE (BIT(NEWT) | BIT(START) | BIT(AWAITT) | BIT(KILL) | BIT(DROPT) | BIT(WAITRAW) | BIT(RAW))
static const Scenario LIST[] = {
    {"two", run, 7, 8, -1, -1, false, "2 tasks waiting for each other and for events, handles copied and moved", {(int)(CORE | BIT(KILLF) | BIT(COPYT) | BIT(SWAPT)), 3, 0, 0, 2}, {"killed", "task dropped unfinished"}},
    {"graph", run, 9, 10, -1, -1, false, "3 started tasks waiting for each other and for events", {(int)(CORE & ~BIT(START)), 3, 0, 0, 5}, {"killed", "task dropped unfinished"}},
    {"then", run, 8, KNOWN ? 9 : 8, -1, -1, false, "follow-ups of tasks", {(int)(CORE | BIT(THENC) | BIT(THENT) | BIT(DROPTH)), 2, 0, 0, 1}, {"killed", "task dropped unfinished"}},
    {"mixed", run, 8, 9, -1, -1, false, "started tasks and callables waiting for each other and for a generator", {(int)((CORE & ~BIT(START)) | BIT(NEWC) | BIT(AWAITC) | BIT(DROPC) | BIT(NEWG) | BIT(SET) | BIT(AWAITG)), 2, 1, 0, 5}, {"killed", "task dropped unfinished"}},
    {"assign", run, 7, 8, -1, -1, false, "3 started tasks, their handles copied, moved and assigned to one another", {(int)(BIT(NEWT) | BIT(COPYT) | BIT(ASSIGNT) | BIT(DROPT) | BIT(WAITRAW) | BIT(RAW) | BIT(AWAITT)), 3, 0, 0, 5}, {"-", "task dropped unfinished", "-", "-", "assigned"}},
    {"many", wide::waiters<task>, 1, 2, -1, -1, false, "one task and up to 7 waiters of every kind", {7}, {"everybody waited", "nobody", "some"}},
    {"very_many", wide::waiters<task>, 1, 1, -1, -1, false, "one task and 8 to 64 waiters of every kind", {0, 57}, {"everybody waited", "nobody", "some"}},
    {"many_thens", wide::thens, 1, 2, -1, -1, false, "one task and up to 7 follow-ups and waiters", {7}, {"ended", "killed", "lost its event"}},
    {"very_many_thens", wide::thens, 1, 1, -1, -1, false, "one task and 8 to 64 follow-ups and waiters", {0, 57}, {"ended", "killed", "lost its event"}},
    {"long", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, 2 tasks", {(int)(CORE | BIT(KILLF) | BIT(COPYT) | BIT(SWAPT)), 3, 0, 0, 2}, {"killed", "task dropped unfinished"}, 5, 7, 8},
    {"long_mixed", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, tasks, callables and a generator", {(int)((CORE & ~BIT(START)) | BIT(NEWC) | BIT(AWAITC) | BIT(DROPC) | BIT(NEWG) | BIT(SET) | BIT(AWAITG) | BIT(DROPG)), 2, 1, 0, 5}, {"killed", "task dropped unfinished"}, 5, 7, 8},
};
MC_MAIN(LIST)
