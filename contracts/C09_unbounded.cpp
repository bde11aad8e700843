// Diagonal matrices of any size: every loop over the equations is decided by induction.
// VC-TU: src/LinAlg/DiagMatrix.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/SAM.C src/LinAlg/MatVec.C src/Utility/LogStream.C
// VC-INCLUDE: sam.inc
// VC-TIME: 250
// VC-FLAGS: -UHAS_ISTL
#include "vc.h"
#include "sam.inc"
#include "DiagMatrix.h"
#include "DenseMatrix.h"
#include "IFEM.h"
#include <iostream>
#include <memory>

utl::LogStream IFEM::cout(std::cout);

static void diag(std::vector<double>& a, size_t n, const char* nm) { a.resize(n); vc_fill(a.data(),n,nm); }

CONTRACT(P_scale_and_add)
{
  size_t n = vc_size("n",1,4);
  std::vector<double> a, b;
  diag(a,n,"a"); diag(b,n,"b");
  DiagMatrix A(a), B(b);
  vc_true(A.dim(1) == n && A.dim(2) == n,"dimension");
  size_t i = vc_index("i",n);
  vc_eq(A(i+1),a[i],"constructed from its diagonal");
  std::unique_ptr<SystemMatrix> P(A.copy());
  double alpha = vc_real("alpha"), beta = vc_real("beta");
  A.mult(alpha);
  vc_eq(A(i+1),alpha*a[i],"scaled");
  vc_true(A.add(B,beta),"matrices of equal dimension are added");
  vc_eq(A(i+1),alpha*a[i]+beta*b[i],"sum");
  vc_eq(B(i+1),b[i],"the added matrix is unchanged");
  vc_eq(dynamic_cast<DiagMatrix&>(*P)(i+1),a[i],"the copy is independent");
}

CONTRACT(P_incompatible)
{
  size_t n = vc_size("n",1,4), m = vc_size("m",1,4);
  vc_assume(n != m);
  std::vector<double> a, b;
  diag(a,n,"a"); diag(b,m,"b");
  DiagMatrix A(a), B(b);
  vc_true(!A.add(B,2.0),"only matrices of equal dimension are added");
  size_t i = vc_index("i",n);
  vc_eq(A(i+1),a[i],"a refused matrix is not added");
  A.redim(m);
  vc_eqi(A.dim(1),m,"new dimension");
  size_t k = vc_index("k",m);
  vc_eq(A(k+1),k < n ? a[k] : 0.0,"content is kept");
  A.init();
  vc_eq(A(k+1),0.0,"cleared");
}

CONTRACT(P_shift)
{
  size_t n = vc_size("n",1,4);
  std::vector<double> a;
  diag(a,n,"a");
  double sigma = vc_real("sigma");
  DiagMatrix A(a), B(a);
  vc_true(A.add(sigma,0),"all equations");
  size_t i = vc_index("i",n), k = vc_index("k",n);
  vc_eq(A(i+1),a[i]+sigma,"shifted");
  vc_true(B.add(sigma,k+1),"one equation");
  vc_eq(B(i+1),i == k ? a[i]+sigma : a[i],"only this term is shifted");
}

CONTRACT(P_product)
{
  size_t n = vc_size("n",1,4);
  std::vector<double> a;
  diag(a,n,"a");
  const DiagMatrix A(a);
  StdVector x(n), y(n);
  vc_fill(x.ptr(),n,"x");
  vc_fill(y.ptr(),n,"y");
  vc_true(A.multiply(x,y),"product computed");
  StdVector w = A * x;
  vc_eqi(w.size(),n,"dimension of the product");
  size_t i = vc_index("i",n);
  vc_eq(y[i],a[i]*x[i],"matrix-vector product");
  vc_eq(w[i],a[i]*x[i],"matrix-vector product as operator");
}

CONTRACT(P_solve)
{
  size_t n = vc_size("n",1,3), nrhs = vc_size("nrhs",1,3);
  std::vector<double> a(n);
  vc_fill_range(a.data(),n,"a",0.001,1000.0);
  DiagMatrix A(a);
  StdVector b(n*nrhs);
  vc_fill(b.ptr(),n*nrhs,"b");
  const StdVector b0(b);
  vc_true(static_cast<SystemMatrix&>(A).solve(b),"regular matrix");
  vc_eqi(b.size(),n*nrhs,"dimension of the solution");
  size_t i = vc_index("i",n), r = vc_index("r",nrhs);
  vc_eq(b[r*n+i]*a[i],b0[r*n+i],"solution multiplied back gives the right-hand side");
}

CONTRACT(P_solve_vector)
{
  size_t n = vc_size("n",1,3);
  std::vector<double> a(n);
  vc_fill_range(a.data(),n,"a",0.001,1000.0);
  DiagMatrix A(a);
  StdVector b(n), x;
  vc_fill(b.ptr(),n,"b");
  vc_true(static_cast<SystemMatrix&>(A).solve(static_cast<const SystemVector&>(b),x),"regular matrix");
  vc_eqi(x.size(),n,"dimension of the solution");
  size_t i = vc_index("i",n);
  vc_eq(x[i]*a[i],b[i],"solution multiplied back gives the right-hand side");
}
