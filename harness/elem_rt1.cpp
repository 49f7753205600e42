#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
void rt_a(Call& k){ switch (k.trait){
    case PP: if (k.tetra) rt_one<DfuncTraits<PerPoint, false>>(k, k.one); else rt_arr<DfuncTraits<PerPoint, false>>(k, k.one); break;
    case PT: rt_arr<DfuncTraits<PerTetra, false>>(k, k.one); break;
    case PS: rt_arr<DfuncTraits<PerSelection, false>>(k, k.one); break;
} }
// values of an operator without a coefficient
static void rt_nod(Call& k){
    DenseMatrix<> A(k.A, 0, 0, k.asz), F(k.dofs.data(), k.U->Nfa(), k.f); auto& U = *k.U; ArrayView<> L(k.L.data(), k.L.size()); ArrayView<const double> X(k.X.data(), k.X.size());
    auto XYZ = make_tetras(k.xy[0], k.xy[1], k.xy[2], k.xy[3], k.f); auto T1 = one_tet(k);
    if (k.fam == APPL){ if (k.mem == DYN){ if (k.tetra) fem3DapplyL(T1, L, F, U, A, *k.wm); else fem3DapplyL(XYZ, L, F, U, A, *k.wm); } else with_mem_x(k, fem3DapplyL_memory_requirements(U, L.size/4, k.f), [&](PlainMemoryX<> m){ fem3DapplyL(XYZ, L, F, U, A, m); }); }
    else { if (k.mem == DYN) fem3DapplyX(T1, X, F, U, A, *k.wm); else with_mem_x(k, fem3DapplyX_memory_requirements(U, X.size/3, 1), [&](PlainMemoryX<> m){ fem3DapplyX(T1, X, F, U, A, m); }); }
    k.nRow = A.nRow; k.nCol = A.nCol;
}
void rt_b(Call& k); void rt_c(Call& k); void rt_d(Call& k);
void run_rt(Call& k){ if (k.trait == NOD) rt_nod(k); else if (k.trait <= PS) rt_a(k); else if (k.trait <= NUL) rt_b(k); else if (k.trait <= CSYM) rt_c(k); else rt_d(k); }
}
