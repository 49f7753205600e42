#include "tens.h"
using namespace tens;
template<class T> static void any(int k, Ctx& c){ (void)k; packing<T>(c); }
#define P6(N, F) packing<PhysArr<N, F>>, packing<SymMtx<N, F>>, packing<PhysMtx<N, F>>
#define P4(N, F) packing<Tensor4Rank<N, F>>, packing<SymTensor4Rank<N, F>>, packing<BiSymTensor4Rank<N, F>>
using Fn = void(*)(Ctx&);
static const Fn pack[] = {P6(1, double), P6(2, double), P6(3, double), P6(4, double), P6(5, double), P6(6, double), P6(3, long double), P6(17, double), P4(1, double), P4(2, double), P4(3, double), P4(4, double), P4(5, double), P4(3, float), packing<BiSymTensor4Rank<6, double>>};
PBT_ENUM(X02_packing, sizeof(pack)/sizeof(*pack), "every kind and size, all index tuples"){ pack[s.below(sizeof(pack)/sizeof(*pack))](c); }
using Gn = void(*)(Src&, Ctx&);
