// C17: C++20 callables.
#include "co20.h"
#include "wide20.h"
#define CORE (BIT(NEWC) | BIT(AWAITC) | BIT(AWAITN) | BIT(KILL) | BIT(DROPC) | BIT(WAITRAW) | BIT(RAW))
static const Scenario LIST[] = {
    {"two", run, 10, 11, -1, -1, false, "2 callables waiting for each other, for temporaries and for events", {(int)(CORE | BIT(KILLF) | BIT(MOVEC)), 2, 0, 0}, {"killed", "-", "dropped unfinished", "moved over"}},
    {"shared", run, 10, 11, -1, -1, false, "3 callables, several of which wait for one", {(int)((CORE & ~BIT(AWAITN)) | BIT(MOVEC)), 3, 0, 0}, {"killed", "-", "dropped unfinished"}},
    {"events", run, 9, 10, -1, -1, false, "2 callables waiting for each other, for temporaries and for a generator", {(int)((CORE & ~(BIT(WAITRAW) | BIT(RAW))) | BIT(NEWG) | BIT(SET) | BIT(AWAITG)), 2, 1, 0}, {"killed", "-", "dropped unfinished"}},
    {"many", wide::waiters<callable>, 1, 2, -1, -1, false, "one callable and up to 8 waiters of every kind", {8}, {"everybody waited", "nobody", "some"}},
    {"very_many", wide::waiters<callable>, 1, 1, -1, -1, false, "one callable and 8 to 64 waiters of every kind", {0, 57}, {"everybody waited", "nobody", "some"}},
    {"long", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, 2 callables", {(int)(CORE | BIT(KILLF) | BIT(MOVEC)), 2, 0, 0}, {"killed", "-", "dropped unfinished"}, 5, 7, 8},
    {"long_events", run, 40, 60, -1, -1, false, "long history: every sequence of operations which repeats after 5 choices, 2 callables and a generator", {(int)((CORE & ~(BIT(WAITRAW) | BIT(RAW))) | BIT(NEWG) | BIT(SET) | BIT(AWAITG) | BIT(DROPG)), 2, 1, 0}, {"killed", "-", "dropped unfinished"}, 5, 7, 8},
};
MC_MAIN(LIST)
