// VC-TU: src/LinAlg/MatVec.C
// VC-TIME: 200
// VC-INCLUDE: C07.inc
#include "C07.inc"
