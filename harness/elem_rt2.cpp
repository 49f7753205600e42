#define PBT_NO_MAIN
#define EL_IMPL
#include "elem.h"
namespace el {
void rt_b(Call& k){ switch (k.trait){
    case GEN: rt_arr<DfuncTraits<TENSOR_GENERAL, false>>(k, k.one); break;
    case SYM: rt_arr<DfuncTraits<TENSOR_SYMMETRIC, false>>(k, k.one); break;
    case SCAL: rt_arr<DfuncTraits<TENSOR_SCALAR, false>>(k, k.one); break;
    case NUL: rt_arr<DfuncTraits<TENSOR_NULL, false>>(k, k.one); break;
} }
}
