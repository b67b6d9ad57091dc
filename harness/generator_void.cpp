// The same without values.
#define VOID20
#include "generator.cpp"
