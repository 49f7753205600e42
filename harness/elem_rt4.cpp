#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
void rt_d(Call& k){ switch (k.trait){
    case CSCAL: rt_arr<DfuncTraits<TENSOR_SCALAR, true>>(k, k.one); break;
    case CNUL: rt_arr<DfuncTraits<TENSOR_NULL, true>>(k, k.one); break;
    case FUS: rt_arr<DfuncTraitsFusive<>>(k, k.fus); break;
} }
}
