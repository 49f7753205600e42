#define LA_PART 1
#include "linalg.cpp"
