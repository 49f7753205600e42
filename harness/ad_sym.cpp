#define PBT_NO_MAIN
#include "ad.h"
using namespace adt;
PBT_PROP(X01_symmetric_tensor, 10000, 120000, "at least two operations, a variable, one derivative and a tolerance below 1e-7"){ program<Ani::PhysSymTensorStorageSet<3>>(s, c); }
PBT_PROP(X01_symmetric_tensor2, 10000, 120000, "at least two operations, a variable, one derivative and a tolerance below 1e-7"){ program<Ani::PhysSymTensorStorageSet<2>>(s, c); }
