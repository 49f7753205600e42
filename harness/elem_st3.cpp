#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
using namespace gen;
template<int OP, class F> using O = Ani::Operator<OP, F>; template<int K> using X = Ani::FemFix<K>;
std::vector<Pair>& pairs3(){ using namespace Ani;
    using R = O<IDEN, X<FEM_RT0>>; using N = O<IDEN, X<FEM_ND0>>; using C = O<CURL, X<FEM_ND0>>; using DX = O<DUDX, X<FEM_P3>>; using CR = O<IDEN, X<FEM_CR1>>;
    static std::vector<Pair> v = {
        PAIR_ALL("RT0, ND0", R, N, E(ref::RT0), E(ref::ND0)),
        PAIR("curl ND0, curl ND0", C, C, E(ref::ND0), E(ref::ND0)),
        PAIR("d/dx P3, CR1", DX, CR, E(ref::P3), E(ref::CR1)) };
    return v; }
}
