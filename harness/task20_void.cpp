// The same without values.
#define VOID20
#include "task20.cpp"
