// built without -ftrivial-auto-var-init=pattern: gcc 13 mis-initialises arrays of long double with it (see DESIGN.md)
#include "ad.h"
using namespace adt;
PBT_PROP(X01_long_double, 10000, 120000, "at least two operations, a variable, one derivative and a tolerance below 1e-7"){ program<Ani::VarPool<4, long double>::Storage>(s, c); }
