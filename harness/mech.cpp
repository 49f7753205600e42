#include "mech.h"
using namespace mech;
PBT_PROP(X03_strain, 6000, 60000, "the displacement gradient is not zero"){ strain<double>(s, c); }
PBT_PROP(X03_strain_long, 3000, 30000, "the displacement gradient is not zero"){ strain<long double>(s, c); }
PBT_PROP(X03_invariants, 4000, 40000, "the strain is not zero"){ invariants<double>(s, c); }
PBT_PROP(X03_invariants_long, 3000, 30000, "the strain is not zero"){ invariants<long double>(s, c); }
PBT_PROP(X03_conversions, 4000, 40000, "neither the displacement gradient nor the stress is zero"){ conversions<double>(s, c); }
PBT_PROP(X03_conversions_long, 3000, 30000, "neither the displacement gradient nor the stress is zero"){ conversions<long double>(s, c); }
PBT_PROP(X03_energy, 6000, 60000, "the energy depends on the strain, the displacement gradient is not zero, the tolerance of every modulus is below 1e-7"){ energy<double>(s, c); }
PBT_PROP(X03_energy_long, 3000, 30000, "the energy depends on the strain, the displacement gradient is not zero, the tolerance of every modulus is below 1e-7"){ energy<long double>(s, c); }
