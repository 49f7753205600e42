#define PBT_NO_MAIN
#define ST_IMPL
#include "statics.h"
namespace st { using namespace Ani; using namespace gen;
std::vector<Space>& part3(){ static std::vector<Space> v = {
    make<FemCom<FemVec<3, FEM_P2>, FemFix<FEM_P1>>, OPS5>("FemCom<FemVec<3,P2>,P1>", Prod({Vec(E(ref::P2), 3), E(ref::P1)})),
    make<FemCom<FemFix<FEM_P1>, FemFix<FEM_RT0>, FemVec<2, FEM_CR1>>, OPS5>("FemCom<P1,RT0,FemVec<2,CR1>>", Prod({E(ref::P1), E(ref::RT0), Vec(E(ref::CR1), 2)})),
    make<FemVecT<2, FemCom<FemFix<FEM_P1>, FemFix<FEM_ND0>>>, OPS5>("FemVecT<2,FemCom<P1,ND0>>", Vec(Prod({E(ref::P1), E(ref::ND0)}), 2)),
    make<FemCom<FemFix<FEM_P0>, FemCom<FemFix<FEM_P3>, FemFix<FEM_B4>>>, OPS5>("FemCom<P0,FemCom<P3,B4>>", Prod({E(ref::P0), Prod({E(ref::P3), E(ref::B4)})})),
}; return v; } }
