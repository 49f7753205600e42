#define PBT_NO_MAIN
#define ST_IMPL
#include "statics.h"
namespace st { using namespace Ani; using namespace gen;
std::vector<Space>& part2(){ static std::vector<Space> v = {
    make<FemVec<3, FEM_P1>, OPS7>("FemVec<3,P1>", Vec(E(ref::P1), 3)), make<FemVec<3, FEM_P2>, OPS7>("FemVec<3,P2>", Vec(E(ref::P2), 3)), make<FemVec<3, FEM_B4>, OPS7>("FemVec<3,B4>", Vec(E(ref::B4), 3)),
    make<FemVec<2, FEM_P3>, OPS5>("FemVec<2,P3>", Vec(E(ref::P3), 2)), make<FemVec<3, FEM_CR1>, OPS7>("FemVec<3,CR1>", Vec(E(ref::CR1), 3)), make<FemVec<2, FEM_RT0>, OPS5>("FemVec<2,RT0>", Vec(E(ref::RT0), 2)),
    make<FemVecT<3, FemFix<FEM_P2>>, OPS5>("FemVecT<3,P2>", Vec(E(ref::P2), 3)), make<FemVecT<2, FemFix<FEM_RT0>>, OPS5>("FemVecT<2,RT0>", Vec(E(ref::RT0), 2)),
}; return v; } }
