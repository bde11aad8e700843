// VC-TU: src/LinAlg/SparseMatrix.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/DiagMatrix.C src/LinAlg/SAM.C src/LinAlg/MatVec.C src/Utility/LogStream.C
// VC-INCLUDE: solver.inc
// VC-TIME: 150
// VC-FLAGS: -UHAS_ISTL
// VC-ASSUME: SuperLU, UMFPACK and LAPACK solve the systems they are given exactly (stand-ins by Cramer's rule that keep the values of the factored matrix)
#include "vc.h"
#include "MatVec.h"
#include "SparseMatrix.h"
#include "DenseMatrix.h"
#include "IFEM.h"
#include "solver.inc"
#include <iostream>
#include <vector>

utl::LogStream IFEM::cout(std::cout);

typedef std::vector< std::vector<double> > Tab;

static Tab table(int n, const std::vector<int>& stored, bool symmetric = false)
{
  Tab T(n,std::vector<double>(n,0.0));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (symmetric && j < i)
        T[i][j] = T[j][i];
      else if (stored[i*n+j])
        T[i][j] = vc_real("a");
  return T;
}

static double det(const Tab& T)
{
  double a[9];
  int n = T.size();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i+n*j] = T[i][j];
  return det(a,n);
}

//! The vector multiplied by the matrix as it was assembled gives the right-hand-side back
static void solves(const Tab& T, const Real* x, const Vector& b, size_t ofs = 0)
{
  int n = T.size();
  for (int i = 0; i < n; i++) {
    double s = 0.0;
    for (int j = 0; j < n; j++) s += T[i][j]*x[j];
    vc_eq(s,b[ofs+i],"the solution fulfils the equations");
  }
}

static void solve(SystemMatrix& A, const Tab& T, int nrhs, bool regular, bool cond = false)
{
  size_t n = T.size();
  StdVector b(n*nrhs);
  vc_fill(b.ptr(),n*nrhs,"b");
  Vector b0(b);
  double rc = -1.0;
  bool ok = A.solve(b,cond ? &rc : nullptr);
  vc_eqi(ok,regular,"success exactly for a regular matrix");
  if (!ok || !regular) return;
  vc_eqi(b.size(),n*nrhs,"size of the solution");
  if (b.size() != n*nrhs) return;
  for (int r = 0; r < nrhs; r++) solves(T,b.ptr()+r*n,b0,r*n);
}

static void sparse(SparseMatrix::SparseSolver solver, int n, const std::vector<int>& stored, bool again)
{
  nFactorizations = nSymbolic = 0;
  int var = vc_pick("variant",0,2), lock = var == 1, cond = var > 0;
  rcState = var;
  SparseMatrix A(n,n,solver);
  int nt = again ? 2 : 1;
  if (lock) {
    for (int i = 0; i < n*n; i++) if (stored[i]) A(i/n+1,i%n+1) = 0.0;
    A.compressPattern();
    A.init();
  }
  for (int t = 0; t < nt; t++) {
    if (t > 0) A.init();
    Tab T = table(n,stored);
    for (int i = 0; i < n*n; i++)
      if (stored[i]) {
        A(i/n+1,i%n+1) += 3.0*T[i/n][i%n];
        A(i/n+1,i%n+1) -= 2.0*T[i/n][i%n];
      }
    A.flagNonZeroEq();
    vc_true(!A.isFactored(),"not factored before it is solved");
    bool regular = det(T) != 0.0;
    if (!regular && t > 0) vc_stop();
    solve(A,T,1,regular,cond);
    if (!regular) { vc_cover("singular"); continue; }
    if (solver == SparseMatrix::SUPERLU) vc_true(A.isFactored(),"factored after it is solved");
    solve(A,T,2,regular); // the same matrix for other right-hand-sides
    if (solver == SparseMatrix::SUPERLU) vc_eqi(nFactorizations,t+1,"the factorization is reused");
    SparseMatrix B(A);
    vc_true(!B.isFactored(),"a copy is not factored");
    if (t == 0) solve(B,T,1,regular);
    if (solver == SparseMatrix::SUPERLU) nFactorizations = t+1;
    if (t > 0) vc_cover("assembled again");
  }
  // Another size
  int m = n == 1 ? 2 : 1;
  A.resize(m);
  Tab T = table(m,std::vector<int>(m*m,1));
  for (int i = 0; i < m*m; i++) A(i/m+1,i%m+1) = T[i/m][i%m];
  if (det(T) == 0.0) vc_stop();
  solve(A,T,1,true);
}

static SparseMatrix::SparseSolver pickSolver()
{
  return vc_pick("solver",0,1) ? SparseMatrix::UMFPACK : SparseMatrix::SUPERLU;
}

CONTRACT(H_sparse_1) { sparse(pickSolver(),1,{1},true); }

CONTRACT(H_sparse_2)
{
  std::vector<int> P(4);
  for (int& p : P) p = vc_pick("stored",0,1);
  if (P[0]*P[3] == 0 && P[1]*P[2] == 0) vc_stop(); // structurally singular
  sparse(pickSolver(),2,P,true);
}

CONTRACT(H_sparse_3)
{
  static const std::vector<int> pattern[4] = { {1,1,1,1,1,1,1,1,1}, {1,1,0,1,1,1,0,1,1}, {0,1,0,0,0,1,1,0,0}, {1,0,1,0,1,0,0,1,1} };
  sparse(pickSolver(),3,pattern[vc_pick("pattern",0,3)],false);
}

CONTRACT(H_sparse_no_solver)
{
  SparseMatrix A(1,1,SparseMatrix::NONE), B(0,0,SparseMatrix::SUPERLU);
  A(1,1) = 2.0;
  StdVector b(1);
  b(1) = vc_real("b");
  double b0 = b(1);
  vc_true(!A.solve(b),"no equation solver");
  vc_eq(b(1),b0,"right-hand-side is left alone");
  StdVector e;
  vc_true(B.solve(e),"nothing to solve");
}

static void dense(int n, bool symm, bool twice)
{
  DenseMatrix A(n,n,symm);
  bool cond = !symm && n < 3 && vc_pick("condition number",0,1);
  for (int t = 0; t < 1+twice; t++) {
    if (t > 0) A.init();
    Tab T = table(n,std::vector<int>(n*n,1),symm);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        A(i+1,j+1) += T[i][j];
    A.flagNonZeroEq();
    if (n > 2 && !symm) vc_assume(T[0][0] != 0.0 && T[0][0]*T[1][1] != T[0][1]*T[1][0]);
    bool regular = det(T) != 0.0;
    if (!regular && t > 0) vc_stop();
    solve(A,T,1,regular,cond);
    if (!regular) continue;
    solve(A,T,n < 3 ? 2 : 1,regular); // reuses the factorization
    Matrix B(n,2);
    vc_fill(B.ptr(),2*n,"B");
    Matrix B0(B);
    vc_true(A.solve(B),"several right-hand-sides");
    for (int c = 0; c < 2; c++) {
      Vector b0(B0.getColumn(c+1));
      solves(T,B.ptr(c),b0);
    }
    if (t > 0) vc_cover("assembled again");
  }
}

CONTRACT(H_dense)        { dense(vc_pick("n",1,2),false,true); }
CONTRACT(T_dense_3)      { dense(3,false,false); }
CONTRACT(H_cholesky)     { dense(vc_pick("n",1,3),true,true); }

//! A solution vector separate from the right-hand-side
CONTRACT(H_separate_solution)
{
  int n = vc_pick("n",1,2), kind = vc_pick("kind",0,2);
  DenseMatrix D(n,n);
  SparseMatrix S(n,n,kind == 1 ? SparseMatrix::SUPERLU : SparseMatrix::UMFPACK);
  SystemMatrix& A = kind ? static_cast<SystemMatrix&>(S) : static_cast<SystemMatrix&>(D);
  Tab T = table(n,std::vector<int>(n*n,1));
  for (int i = 0; i < n*n; i++)
    (kind ? S(i/n+1,i%n+1) : D(i/n+1,i%n+1)) = T[i/n][i%n];
  if (det(T) == 0.0) return;
  StdVector b(n), x(vc_pick("size of x",0,2));
  vc_fill(b.ptr(),n,"b");
  vc_fill(x.ptr(),x.size(),"x");
  Vector b0(b);
  vc_true(A.solve(static_cast<const SystemVector&>(b),x),"regular matrix");
  for (int i = 0; i < n; i++) vc_eq(b[i],b0[i],"right-hand-side is left alone");
  vc_eqi(x.size(),n,"size of the solution");
  if ((int)x.size() == n) solves(T,x.ptr(),b0);
}
