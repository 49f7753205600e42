#define IV_PART 3
#include "interval.cpp"
