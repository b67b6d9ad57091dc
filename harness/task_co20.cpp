// C22: C++20 coroutines waiting for stackful tasks.
#include "co20.h"
#include "wide20.h"
#define SF (BIT(NEWS) | BIT(SSTART) | BIT(SKILL) | BIT(SDROP) | BIT(AWAITS))
#define P(x) (int)(x)
static const Scenario LIST[] = {
    {"callables", run, 7, 8, -1, -1, false, "callables waiting for 2 stackful tasks", {P(SF | BIT(NEWC) | BIT(KILL) | BIT(DROPC)), 2, 0, 0}, {"killed", "-", "dropped unfinished", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "went on after a stackful task", "dropped unstarted", "dropped waiting", "stackful task killed"}},
    {"tasks", run, 7, 8, -1, -1, false, "C++20 tasks waiting for stackful tasks", {P(SF | BIT(NEWT) | BIT(START) | BIT(KILL) | BIT(KILLF) | BIT(DROPT)), 2, 0, 0}, {"killed", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "went on after a stackful task", "dropped unstarted", "dropped waiting", "stackful task killed"}},
    {"chain", run, 7, 8, -1, -1, false, "callables waiting for each other, raw events and stackful tasks", {P(SF | BIT(NEWC) | BIT(AWAITC) | BIT(AWAITN) | BIT(WAITRAW) | BIT(RAW)), 2, 0, 0}, {"-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "went on after a stackful task", "dropped unstarted", "dropped waiting", "stackful task killed"}},
    {"all", run, 7, 7, -1, -1, false, "callables and tasks waiting for each other and stackful tasks", {P(SF | BIT(NEWC) | BIT(NEWT) | BIT(START) | BIT(KILL) | BIT(DROPC) | BIT(DROPT) | BIT(AWAITC) | BIT(AWAITT) | BIT(AWAITN)), 2, 0, 0}, {"-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "went on after a stackful task", "dropped unstarted", "dropped waiting", "stackful task killed"}},
    {"many", wide::waiters<stackful>, 1, 2, -1, -1, false, "one stackful task and up to 7 waiters of every kind", {7}, {"everybody waited", "nobody", "some"}},
    {"very_many", wide::waiters<stackful>, 1, 1, -1, -1, false, "one stackful task and 8 to 64 waiters of every kind", {0, 57}, {"everybody waited", "nobody", "some"}},
    {"long", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, callables and stackful tasks", {P(SF | BIT(NEWC) | BIT(KILL) | BIT(DROPC)), 2, 0, 0}, {"killed", "-", "dropped unfinished"}, 5, 7, 8},
};
MC_MAIN(LIST)
