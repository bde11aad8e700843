// The inlined methods used when no BLAS library is available.
// VC-TU: src/LinAlg/MatVec.C
// VC-TIME: 200
// VC-FLAGS: -UUSE_CBLAS
// VC-INCLUDE: C07.inc
#include "C07.inc"
