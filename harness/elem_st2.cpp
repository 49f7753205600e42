#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
using namespace gen;
template<int OP, class F> using O = Ani::Operator<OP, F>; template<int K> using X = Ani::FemFix<K>;
std::vector<Pair>& pairs2(){ using namespace Ani;
    using A0 = O<IDEN, X<FEM_P0>>; using V1 = O<IDEN, FemVec<3, FEM_P1>>; using D2 = O<DIV, FemVec<3, FEM_P2>>; using A1 = O<IDEN, X<FEM_P1>>; using G1 = O<GRAD, X<FEM_P1>>;
    static std::vector<Pair> v = {
        PAIR_ALL("P0, P1^3", A0, V1, E(ref::P0), Vec(E(ref::P1), 3)),
        PAIR("div P2^3, P1", D2, A1, Vec(E(ref::P2), 3), E(ref::P1)),
        PAIR("grad P1, P1^3", G1, V1, E(ref::P1), Vec(E(ref::P1), 3)) };
    return v; }
}
