// VC-TU: src/LinAlg/DiagMatrix.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/SAM.C src/LinAlg/MatVec.C src/Utility/LogStream.C
// VC-INCLUDE: sam.inc
// VC-TIME: 250
// VC-PATHS: 30000
// VC-FLAGS: -UHAS_ISTL
// VC-ASSUME: the optional ISTL matrix classes are left out of the compilation of SystemMatrix.C (only its factory refers to them)
// VC-ASSUME: the nodes of an element are distinct
// VC-ASSUME: a pivot is either exactly zero or larger than 1e-10 in magnitude
#include "vc.h"
#include "sam.inc"
#include "DiagMatrix.h"
#include "DenseMatrix.h"
#include "IFEM.h"
#include <iostream>
#include <memory>

utl::LogStream IFEM::cout(std::cout);

static double absv(double x) { return x < 0.0 ? -x : x; }

static void addElems(TModel& m, int w)
{
  int nn = m.nd.size();
  m.elems.push_back({});
  for (int i = 1; i <= nn; i++) m.elems[0].push_back(i);
  switch (w) {
  case 0: m.elems.push_back({nn,1}); break;
  default: m.elems.push_back({nn,-1}); break;
  }
}

//! Elements assembled into diagonal and into full storage
static void assembly(int mesh)
{
  TModel m = pickModel(mesh,false);
  addElems(m,mesh%3);
  TSam s(m);
  if (!s.ok || m.neq == 0) return;
  DiagMatrix  A;
  DenseMatrix B;
  StdVector b(m.neq);
  A.initAssembly(s,false);
  B.initAssembly(s,false);
  vc_eqi(A.dim(1),m.neq,"one term for each equation");
  A.init();
  for (int e = 1; e <= 2; e++) {
    size_t n = m.elmDofs(e-1).size();
    Matrix k(n,n);
    vc_fill(k.ptr(),n*n,"k");
    if (e == 1) {
      vc_true(s.assembleSystem(A,k,e),"element accepted in diagonal storage");
      vc_true(s.assembleSystem(B,k,e),"element accepted in full storage");
    }
    else {
      StdVector c(m.neq);
      vc_true(A.assemble(k,s,c,e),"element accepted in diagonal storage");
      vc_true(B.assemble(k,s,b,e),"element accepted in full storage");
    }
    vc_true(!A.assemble(Matrix(n-1,n-1),s,e),"too small element matrix refused");
  }
  for (int p = 1; p <= m.neq; p++)
    vc_eq(A(p),B.getMat()(p,p),"diagonal of the assembled matrix");
  DiagMatrix C(m.neq+1);
  vc_true(!C.assemble(Matrix(m.elmDofs(0).size(),m.elmDofs(0).size()),s,1),"a matrix of other dimension is refused");
}

CONTRACT(H_assembly_2x2) { assembly(0); }
CONTRACT(T_assembly_121) { assembly(1); }
CONTRACT(H_assembly_31)  { assembly(2); }

//! Assembly by equation numbers
CONTRACT(H_explicit_equations)
{
  int neq = vc_pick("neq",1,3), n = vc_pick("n",1,3);
  IntVec meq(n);
  bool neg = false;
  for (int& i : meq) { i = vc_pick("eq",-1,2); neg |= i < 0; }
  for (int i : meq) vc_assume(i < neq);
  DiagMatrix A(neq);
  std::vector<double> d(neq);
  for (int i = 0; i < neq; i++) A(i+1) = d[i] = vc_real("d");
  A.initNonZeroEqs();
  Matrix k(n,n);
  vc_fill(k.ptr(),n*n,"k");
  bool ok = A.assemble(k,meq);
  vc_eqi(ok,!neg,"negative equation numbers are refused");
  for (int i = 0; i < n && ok; i++) d[meq[i]] += k(i+1,i+1);
  for (int i = 0; i < neq; i++) vc_eq(A(i+1),d[i],"diagonal terms added at the given equations");
}

//! Scaling, adding, multiplying
CONTRACT(H_arithmetic)
{
  int n = vc_pick("n",1,4), nb = vc_pick("nb",1,4);
  std::vector<double> a(n), b(nb);
  vc_fill(a.data(),n,"a");
  vc_fill(b.data(),nb,"b");
  DiagMatrix A(a), B(b,nb);
  vc_eqi(A.dim(1),n,"dimension");
  vc_eqi(A.dim(2),n,"dimension");
  for (int i = 0; i < n; i++) vc_eq(A(i+1),a[i],"constructed from its diagonal");
  std::unique_ptr<SystemMatrix> P(A.copy());
  double alpha = vc_real("alpha"), beta = vc_real("beta"), sigma = vc_real("sigma");
  A.mult(alpha);
  for (int i = 0; i < n; i++) vc_eq(A(i+1),alpha*a[i],"scaled");
  bool ok = A.add(B,beta);
  vc_eqi(ok,n == nb,"only matrices of equal dimension are added");
  for (int i = 0; i < n; i++) vc_eq(A(i+1),alpha*a[i] + (ok ? beta*b[i] : 0.0),"sum");
  for (int i = 0; i < nb; i++) vc_eq(B(i+1),b[i],"the added matrix is unchanged");
  vc_true(!A.add(DenseMatrix(n,n),beta),"other matrix types are refused");
  const DiagMatrix& Q = dynamic_cast<DiagMatrix&>(*P);
  for (int i = 0; i < n; i++) vc_eq(Q(i+1),a[i],"the copy is independent");
  // diagonal shift
  DiagMatrix C(Q);
  C.initNonZeroEqs();
  int ieq = vc_pick("equation",0,5);
  ok = C.add(sigma,ieq);
  vc_eqi(ok,ieq <= n,"only existing equations");
  for (int i = 0; i < n; i++) vc_eq(C(i+1),a[i] + (ok && (ieq == 0 || ieq == i+1) ? sigma : 0.0),"shifted");
  // products
  StdVector x(n), y(n), z(n+1);
  vc_fill(x.ptr(),n,"x");
  vc_fill(y.ptr(),n,"y");
  vc_true(Q.multiply(x,y),"product computed");
  StdVector w = Q * x;
  vc_eqi(w.size(),n,"dimension of the product");
  for (int i = 0; i < n; i++) vc_eq(y[i],a[i]*x[i],"matrix-vector product");
  for (int i = 0; i < n && w.size() == x.size(); i++) vc_eq(w[i],a[i]*x[i],"matrix-vector product as operator");
  DenseMatrix D(n,n);
  for (int i = 0; i < n; i++) D.getMat()(i+1,i+1) = a[i];
  vc_true(D.multiply(x,z),"product with the full matrix");
  for (int i = 0; i < n; i++) vc_eq(y[i],z[i],"same product as with the full matrix");
  // re-dimensioning keeps the content
  DiagMatrix E(Q);
  E.redim(nb);
  vc_eqi(E.dim(1),nb,"new dimension");
  for (int i = 0; i < nb; i++) vc_eq(E(i+1),i < n ? a[i] : 0.0,"content is kept");
  E.init();
  for (int i = 0; i < nb; i++) vc_eq(E(i+1),0.0,"cleared");
}

CONTRACT(H_infinity_norm)
{
  int n = vc_pick("n",1,4);
  DiagMatrix A(n);
  double mx = 0.0;
  for (int i = 0; i < n; i++) {
    A(i+1) = vc_real("a");
    mx = std::max(mx,absv(A(i+1)));
  }
  vc_eq(A.Linfnorm(),mx,"largest absolute term");
}

//! Solving for one or several right-hand sides, with any set of zero pivots
CONTRACT(H_solve)
{
  int n = vc_pick("n",1,3), nrhs = vc_pick("nrhs",1,3), how = vc_pick("call",0,2), nzero = 0;
  if (how > 0 && how < 2) vc_assume(nrhs == 1);
  DiagMatrix A(n);
  std::vector<int> zero(n);
  for (int i = 0; i < n; i++) {
    zero[i] = vc_pick("zero",0,1);
    if (zero[i]) nzero++;
    else {
      A(i+1) = vc_real("a");
      vc_assume(A(i+1) > 1.0e-10 || A(i+1) < -1.0e-10);
    }
  }
  StdVector b(n*nrhs), x;
  vc_fill(b.ptr(),n*nrhs,"b");
  StdVector b0(b);
  bool ok;
  if (how == 0) { // in place
    ok = static_cast<SystemMatrix&>(A).solve(b);
    x = b;
  }
  else if (how == 1) { // separate solution vector
    ok = static_cast<SystemMatrix&>(A).solve(static_cast<const SystemVector&>(b0),x);
    vc_eqi(x.size(),n,"dimension of the solution");
  }
  else { // solution vectors as rows of a matrix
    Matrix X;
    ok = static_cast<SystemMatrix&>(A).solve(b,X);
    x = b;
    if (ok) {
      vc_eqi(X.rows(),nrhs,"one row for each right-hand side");
      vc_eqi(X.cols(),n,"one column for each equation");
      for (int r = 0; r < nrhs; r++)
        for (int i = 0; i < n; i++) vc_eq(X(r+1,i+1)*A(i+1),b0[r*n+i],"solution matrix multiplied back");
    }
  }
  vc_eqi(ok,nzero == 0,"zero pivots are reported");
  vc_eqi(x.size(),n*nrhs,"dimension of the solution");
  for (int r = 0; r < nrhs && x.size() == b0.size(); r++)
    for (int i = 0; i < n; i++)
      if (!zero[i]) vc_eq(x[r*n+i]*A(i+1),b0[r*n+i],"solution multiplied back gives the right-hand side");
  if (ok && nrhs == 1) {
    StdVector y(n);
    A.multiply(x,y);
    for (int i = 0; i < n; i++) vc_eq(y[i],b0[i],"product with the solution gives the right-hand side");
    StdVector q = A / b0;
    vc_eqi(q.size(),n,"dimension of the quotient");
    for (int i = 0; i < n && (int)q.size() == n; i++) vc_eq(q[i]*A(i+1),b0[i],"quotient multiplied back");
  }
  vc_cover(nzero ? "zero pivot" : "regular");
}

CONTRACT(H_no_equations)
{
  DiagMatrix A;
  StdVector b;
  vc_true(static_cast<SystemMatrix&>(A).solve(b),"nothing to solve");
  vc_eqi(A.dim(1),0,"no equations");
  A.redim(2);
  vc_eq(A(1),0.0,"zero"); vc_eq(A(2),0.0,"zero");
}

//! Equations without contributions get a large pivot at the end of the assembly
CONTRACT(H_empty_equations)
{
  int n = vc_pick("n",2,4);
  DiagMatrix A(n);
  A.initNonZeroEqs();
  std::vector<int> f(n);
  std::vector<double> a(n,0.0);
  int any = 0;
  for (int i = 0; i < n; i++)
    if ((f[i] = vc_pick("contribution",0,1))) {
      any = 1;
      a[i] = vc_real("a");
      Matrix k(1,1);
      k(1,1) = a[i];
      vc_true(A.assemble(k,IntVec{i}),"assembled");
    }
  vc_eqi(A.isZero(),!any,"no contributions");
  vc_true(A.endAssembly(),"assembly completed");
  for (int i = 0; i < n; i++)
    vc_eq(A(i+1),f[i] ? a[i] : any ? 1.0e9 : 0.0,"only equations without contributions get a large pivot");
}
