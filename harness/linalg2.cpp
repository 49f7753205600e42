#define PBT_NO_MAIN
#define LA_PART 2
#include "linalg.cpp"
