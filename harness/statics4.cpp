#define PBT_NO_MAIN
#define ST_IMPL
#include "statics.h"
namespace st { using namespace Ani; using namespace gen;
using MINI = FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>;
static Node mini(){ return Sum({E(ref::P1), E(ref::B4)}); }
std::vector<Space>& part4(){ static std::vector<Space> v = {
    make<MINI, OPS5>("FemUnionT<P1,B4>", mini()), make<FemUnionT<FemFix<FEM_P2>, FemFix<FEM_B4>>, OPS5>("FemUnionT<P2,B4>", Sum({E(ref::P2), E(ref::B4)})),
    make<FemUnionT<FemFix<FEM_P0>, FemFix<FEM_B2>, FemFix<FEM_B4>>, OPS5>("FemUnionT<P0,B2,B4>", Sum({E(ref::P0), E(ref::B2), E(ref::B4)})),
    make<FemVecT<3, MINI>, OPS5>("FemVecT<3,FemUnionT<P1,B4>>", Vec(mini(), 3)), make<FemCom<FemVecT<3, MINI>, FemFix<FEM_P1>>, OPS5>("FemCom<FemVecT<3,FemUnionT<P1,B4>>,P1>", Prod({Vec(mini(), 3), E(ref::P1)})),
    make<FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>, OPS7>("FemUnionT<FemVec<3,P1>,FemVec<3,B4>>", Sum({Vec(E(ref::P1), 3), Vec(E(ref::B4), 3)})),
    make<FemUnionT<FemFix<FEM_RT0>, FemVec<3, FEM_B4>>, OPS7>("FemUnionT<RT0,FemVec<3,B4>>", Sum({E(ref::RT0), Vec(E(ref::B4), 3)})),
}; return v; } }
