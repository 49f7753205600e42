#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
void rt_c(Call& k){ switch (k.trait){
    case CPP: rt_arr<DfuncTraits<PerPoint, true>>(k, k.one); break;
    case CPS: rt_arr<DfuncTraits<PerSelection, true>>(k, k.one); break;
    case CGEN: rt_arr<DfuncTraits<TENSOR_GENERAL, true>>(k, k.one); break;
    case CSYM: rt_arr<DfuncTraits<TENSOR_SYMMETRIC, true>>(k, k.one); break;
} }
}
