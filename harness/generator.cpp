// C18: C++20 generators.
#include "co20.h"
#include "wide20.h"
#define GEN (BIT(NEWG) | BIT(SET) | BIT(UNSET) | BIT(DROPG) | BIT(AWAITG) | BIT(NEWC) | BIT(KILL) | BIT(DROPC))
static const Scenario LIST[] = {
    {"waiters", run, 9, 10, -1, -1, false, "up to 3 callables waiting for one generator", {(int)(GEN | BIT(KILLF)), 3, 1, 1}, {"killed", "-", "dropped unfinished", "-", "-", "-", "generator dropped pending"}},
    {"two", run, 8, 9, -1, -1, false, "2 generators, their handles copied, and 2 callables", {(int)(GEN | BIT(COPYG) | BIT(ASSIGNG) | BIT(AWAITC)), 2, 2, 0}, {"killed", "-", "dropped unfinished", "-", "-", "assigned", "generator dropped pending"}},
    {"hook", run, 8, 9, -1, -1, false, "2 generators and 2 callables, the hook does whatever is possible", {(int)(GEN | BIT(KILLF)), 2, 2, 2}, {"killed", "-", "dropped unfinished", "-", "-", "-", "generator dropped pending"}},
    {"tasks", run, 8, 9, -1, -1, false, "tasks waiting for a generator", {(int)((GEN | BIT(NEWT) | BIT(START) | BIT(DROPT)) & ~(BIT(NEWC) | BIT(DROPC))), 2, 1, 1}, {"killed", "task dropped unfinished", "-", "-", "-", "-", "generator dropped pending"}},
    {"many", wide::waiters<gen>, 1, 2, -1, -1, false, "one generator and up to 7 waiters of every kind", {7}, {"everybody waited", "nobody", "some"}},
    {"very_many", wide::waiters<gen>, 1, 1, -1, -1, false, "one generator and 8 to 64 waiters of every kind", {0, 57}, {"everybody waited", "nobody", "some"}},
    {"long", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, 2 generators and 2 callables", {(int)(GEN | BIT(COPYG) | BIT(ASSIGNG)), 2, 2, 0}, {"killed", "-", "dropped unfinished"}, 5, 7, 8},
};
MC_MAIN(LIST)
