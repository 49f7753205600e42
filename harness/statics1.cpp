#define PBT_NO_MAIN
#define ST_IMPL
#include "statics.h"
namespace st { using namespace Ani; using namespace gen;
std::vector<Space>& part1(){ static std::vector<Space> v = {
    make<FemFix<FEM_P0>, OPS5>("P0", E(ref::P0)), make<FemFix<FEM_P1>, OPS5>("P1", E(ref::P1)), make<FemFix<FEM_P2>, OPS5>("P2", E(ref::P2)), make<FemFix<FEM_P3>, OPS5>("P3", E(ref::P3)),
    make<FemFix<FEM_ND0>, OPS7>("ND0", E(ref::ND0)), make<FemFix<FEM_RT0>, OPS7>("RT0", E(ref::RT0)), make<FemFix<FEM_CR1>, OPS5>("CR1", E(ref::CR1)), make<FemFix<FEM_B2>, OPS5>("B2", E(ref::B2)), make<FemFix<FEM_B4>, OPS5>("B4", E(ref::B4)),
}; return v; } }
