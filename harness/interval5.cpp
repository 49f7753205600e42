#define PBT_NO_MAIN
#define IV_PART 5
#include "interval.cpp"
