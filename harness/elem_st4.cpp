#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
using namespace gen;
template<int OP, class F> using O = Ani::Operator<OP, F>; template<int K> using X = Ani::FemFix<K>;
std::vector<Pair>& pairs4(){ using namespace Ani;
    using M = FemCom<FemVec<3, FEM_P2>, X<FEM_P1>>; using IM = O<IDEN, M>; using MN = FemVecT<3, FemUnionT<X<FEM_P1>, X<FEM_B4>>>; using GN = O<GRAD, MN>; using IN = O<IDEN, MN>; using A0 = O<IDEN, X<FEM_P0>>; using A1 = O<IDEN, X<FEM_P1>>;
    Node mini = Vec(Sum({E(ref::P1), E(ref::B4)}), 3), th = Prod({Vec(E(ref::P2), 3), E(ref::P1)});
    static std::vector<Pair> v = {
        PAIR("grad (P1+B4)^3, grad (P1+B4)^3", GN, GN, mini, mini),
        PAIR("(P2^3 x P1), (P1+B4)^3", IM, IN, th, mini),
        PAIR("P0, P1", A0, A1, E(ref::P0), E(ref::P1)) };
    return v; }
}
