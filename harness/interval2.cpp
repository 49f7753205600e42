#define IV_PART 2
#include "interval.cpp"
