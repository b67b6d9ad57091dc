#include "values20.h"
static const Scenario LIST[] = {
    {"values", values<ASYNC_T>, 9, 10, -1, -1, false, "values of every kind, up to 3 waiters before and after the value", {}, {"ready", "killed", "shared", "awaited later"}},
};
MC_MAIN(LIST)
