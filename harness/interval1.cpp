#define IV_PART 1
#include "interval.cpp"
