#include "ad.h"
using namespace adt;
PBT_PROP(X01_one_variable, 15000, 200000, "at least two operations, a variable, one derivative and a tolerance below 1e-7"){ program<Ani::PhysArrStorageSet<1>>(s, c); }
PBT_PROP(X01_five_variables, 15000, 200000, "at least two operations, a variable, one derivative and a tolerance below 1e-7"){ program<Ani::PhysArrStorageSet<5>>(s, c); }
PBT_PROP(X01_comparisons, 4000, 40000, "every case"){ compared<Ani::PhysArrStorageSet<5>>(s, c); }
