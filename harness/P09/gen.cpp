#define GENERAL
#include "feti.cpp"
