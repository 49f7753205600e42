#define PBT_NO_MAIN
#include "tens.h"
using namespace tens;
using Gn = void(*)(Src&, Ctx&);
#define W(N, F) vectorspace<PhysArr<N, F>>, vectorspace<SymMtx<N, F>>, vectorspace<PhysMtx<N, F>>, vectorspace<Tensor4Rank<N, F>>, vectorspace<SymTensor4Rank<N, F>>, vectorspace<BiSymTensor4Rank<N, F>>
static const Gn vs[] = {W(1, double), W(2, double), W(3, double), W(4, double), W(3, long double), W(2, long double), vectorspace<SymMtx<6, double>>, vectorspace<PhysMtx<6, double>>};
PBT_PROP(X02_vector_space, 6000, 60000, "both operands nonzero"){ int k = s.below(sizeof(vs)/sizeof(*vs)); vs[k](s, c); }
