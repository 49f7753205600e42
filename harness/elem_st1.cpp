#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
using namespace gen;
template<int OP, class F> using O = Ani::Operator<OP, F>; template<int K> using X = Ani::FemFix<K>;
std::vector<Pair>& pairs1(){ using namespace Ani;
    using A1 = O<GRAD, X<FEM_P2>>; using A2 = O<IDEN, X<FEM_P1>>; using G3 = O<GRAD, FemVec<3, FEM_P1>>;
    static std::vector<Pair> v = {
        PAIR_ALL("grad P2, grad P2", A1, A1, E(ref::P2), E(ref::P2)),
        PAIR("P1, P1", A2, A2, E(ref::P1), E(ref::P1)),
        PAIR("grad P1^3, grad P1^3", G3, G3, Vec(E(ref::P1), 3), Vec(E(ref::P1), 3)) };
    return v; }
}
