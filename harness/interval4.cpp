#define PBT_NO_MAIN
#define IV_PART 4
#include "interval.cpp"
