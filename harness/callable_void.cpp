// The same without values.
#define VOID20
#include "callable.cpp"
