#define LA_PART 3
#include "linalg.cpp"
