// Arrays of any length: the loops are decided by induction.
// VC-TU: src/Utility/Utilities.C src/LinAlg/MatVec.C
// VC-TIME: 250
#include "vc.h"
#include "Utilities.h"
#include "matrix.h"

typedef std::vector<double> Reals;

CONTRACT(P_interleave)
{
  size_t n = vc_size("nodes",1,3), n1 = vc_size("n1",1,3), n2 = vc_size("n2",1,2);
  Reals a(n*n1), b(n*n2), out;
  vc_fill(a.data(),n*n1,"a");
  vc_fill(b.data(),n*n2,"b");
  utl::interleave(a,b,out,n1,n2);
  vc_eqi(out.size(),n*(n1+n2),"total length");
  if (out.size() != n*(n1+n2)) return;
  size_t i = vc_index("i",n), k = vc_index("k",n1), l = vc_index("l",n2);
  vc_eq(out[i*(n1+n2)+k],a[i*n1+k],"values of the first array");
  vc_eq(out[i*(n1+n2)+n1+l],b[i*n2+l],"values of the second array");
}
