#define PBT_NO_MAIN
#include "tens.h"
using namespace tens;
using Gn = void(*)(Src&, Ctx&);
#define I(N, F) iterators<PhysArr<N, F>>, iterators<SymMtx<N, F>>
#define I4(N, F) iterators<Tensor4Rank<N, F>>, iterators<SymTensor4Rank<N, F>>, iterators<BiSymTensor4Rank<N, F>>
static const Gn its[] = {I(1, double), I(2, double), I(3, double), I(5, double), I(17, double), I(3, long double), I4(1, double), I4(2, double), I4(3, double), I4(4, double), I4(6, double)};
PBT_PROP(X02_iterators, 4000, 40000, "more than one component"){ int k = s.below(sizeof(its)/sizeof(*its)); its[k](s, c); }
