// VC-TU: src/LinAlg/SparseMatrix.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/DiagMatrix.C src/LinAlg/SAM.C src/LinAlg/MatVec.C src/Utility/LogStream.C
// VC-INCLUDE: sam.inc
// VC-TIME: 250
// VC-PATHS: 30000
// VC-FLAGS: -UHAS_ISTL
// VC-ASSUME: the optional ISTL matrix classes are left out of the compilation of SystemMatrix.C (only its factory refers to them)
#include "vc.h"
#include "sam.inc"
#include "SparseMatrix.h"
#include "IFEM.h"
#include <iostream>
#include <array>
#include <sstream>

utl::LogStream IFEM::cout(std::cout);

typedef std::vector< std::vector<double> > Tab;

static SparseMatrix::SparseSolver solverType(int s)
{
  return s == 0 ? SparseMatrix::SUPERLU : s == 1 ? SparseMatrix::S_A_M_G : s == 2 ? SparseMatrix::UMFPACK : SparseMatrix::NONE;
}

static double absv(double x) { return x < 0.0 ? -x : x; }

//! An arbitrary set of stored entries with arbitrary values; nonzero pattern bits in P.
//! Entries whose bit in \a always is set are stored in every case.
static void fill(SparseMatrix& A, Tab& T, std::vector<int>& P, int m, int n, bool reversed = false, int always = 0)
{
  T.assign(m,std::vector<double>(n,0.0));
  P.assign(m*n,0);
  for (int i = 0; i < m*n; i++) P[i] = (always >> i)%2 || vc_pick("stored",0,1);
  for (int i = 0; i < m*n; i++) {
    int k = reversed ? m*n-1-i : i;
    if (P[k]) {
      T[k/n][k%n] = vc_real("a");
      A(k/n+1,k%n+1) = T[k/n][k%n];
    }
  }
  A.flagNonZeroEq();
}

//! All ways of reading the matrix agree with the table
static void same(const SparseMatrix& A, const Tab& T, int nnz, const char* txt)
{
  int m = T.size(), n = T.front().size();
  vc_eqi(A.rows(),m,"number of rows");
  vc_eqi(A.cols(),n,"number of columns");
  if ((int)A.rows() != m || (int)A.cols() != n) return;
  vc_eqi(A.dim(1),m,"number of rows");
  vc_eqi(A.dim(2),n,"number of columns");
  vc_eqi(A.dim(3),m*n,"full size");
  vc_eqi(A.size(),nnz,"number of stored entries");
  vc_eqi(A.dim(0),nnz,"number of stored entries");
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++)
      vc_eq(A(i+1,j+1),T[i][j],txt);
  StdVector x(n), y(1);
  vc_fill(x.ptr(),n,"x");
  y(1) = vc_real("y");
  vc_true(A.multiply(x,y),"product computed");
  vc_eqi(y.size(),m,"dimension of the product");
  if ((int)y.size() != m) return;
  for (int i = 0; i < m; i++) {
    double s = 0.0;
    for (int j = 0; j < n; j++) s += T[i][j]*x[j];
    vc_eq(y[i],s,"matrix-vector product");
  }
  vc_true(!A.multiply(StdVector(n-1),y),"too short vector refused");
}

static void infNorm(const SparseMatrix& A, const Tab& T)
{
  double mx = -1.0;
  for (const std::vector<double>& r : T) {
    double s = 0.0;
    for (double v : r) s += absv(v);
    if (s > mx) mx = s;
  }
  vc_eq(A.Linfnorm(),mx,"largest absolute row sum");
}

static int count(const std::vector<int>& P)
{
  int k = 0;
  for (int p : P) k += p;
  return k;
}

static void conversion(int m, int n, int rev, int always = 0)
{
  int s = vc_pick("solver",0,2);
  SparseMatrix A(m,n,solverType(s));
  Tab T;
  std::vector<int> P;
  fill(A,T,P,m,n,rev,always);
  int nnz = count(P);
  if (rev && s == 0) same(A,T,nnz,"editable form holds the stored entries");
  SparseMatrix B(A);
  if (vc_pick("locked",0,1)) vc_true(!A.lockPattern(true),"pattern was not locked");
  A.compressPattern();
  same(A,T,nnz,"compressed form holds the stored entries");
  SparseMatrix C(A);
  double alpha = vc_real("alpha");
  A.mult(alpha);
  B.mult(alpha);
  for (int k = 0; k < m*n; k++) {
    vc_eq(A(k/n+1,k%n+1),P[k] ? alpha*T[k/n][k%n] : 0.0,"scaled compressed form");
    vc_eq(B(k/n+1,k%n+1),P[k] ? alpha*T[k/n][k%n] : 0.0,"scaled editable form");
    vc_eq(C(k/n+1,k%n+1),T[k/n][k%n],"copy of the compressed form is independent");
  }
  // adding compressed forms, and adding a compressed to an editable form
  double beta = vc_real("beta");
  vc_true(C.add(A,beta),"compressed forms with the same pattern are added");
  vc_true(B.add(C,beta),"compressed form is added to editable form");
  vc_true(nnz == 0 || !C.add(B,beta),"editable form cannot be added to compressed form");
  for (int k = 0; k < m*n; k++) {
    double t = T[k/n][k%n], c = t+beta*alpha*t;
    vc_eq(C(k/n+1,k%n+1),c,"sum of compressed forms");
    vc_eq(B(k/n+1,k%n+1),alpha*t+beta*c,"sum of editable and compressed form");
  }
  // writing through the element access
  for (int k = 0; k < m*n; k++)
    if (P[k]) {
      A(k/n+1,k%n+1) += 1.0;
      for (int l = 0; l < m*n; l++)
        vc_eq(A(l/n+1,l%n+1),!P[l] ? 0.0 : alpha*T[l/n][l%n] + (l <= k ? 1.0 : 0.0),"only the addressed entry is changed");
    }
  if (nnz == 3) vc_cover("three entries");
  // clearing with the same size keeps the pattern
  A.resize(m,n);
  vc_eqi(A.size(),nnz,"pattern retained");
  for (int k = 0; k < m*n; k++) {
    vc_eq(A(k/n+1,k%n+1),0.0,"cleared");
    if (P[k]) A(k/n+1,k%n+1) = T[k/n][k%n];
  }
  for (int k = 0; k < m*n; k++)
    vc_eq(A(k/n+1,k%n+1),T[k/n][k%n],"re-assembled into the retained pattern");
  // clearing completely
  A.resize(m,n,true);
  vc_eqi(A.size(),0,"pattern erased");
  A(m,1) = alpha;
  vc_eq(A(m,1),alpha,"pattern can be built anew");
  A.compressPattern();
  for (int k = 0; k < m*n; k++)
    vc_eq(A(k/n+1,k%n+1),k == (m-1)*n ? alpha : 0.0,"second compression");
}

CONTRACT(H_conversion_2x2) { conversion(2,2,0); }
CONTRACT(H_conversion_2x3) { conversion(2,3,0,0x21); }
CONTRACT(H_conversion_3x2) { conversion(3,2,1,0x0c); }
CONTRACT(H_conversion_1x3) { conversion(1,3,1); }
CONTRACT(T_conversion_2x3_all) { conversion(2,3,1); }
CONTRACT(T_conversion_3x2_all) { conversion(3,2,0); }
CONTRACT(T_conversion_3x3) { conversion(3,3,1); }
CONTRACT(T_conversion_2x4) { conversion(2,4,0); }

//! Larger patterns, one conversion each
CONTRACT(H_conversion_3x3)
{
  SparseMatrix A(3,3,solverType(vc_pick("solver",0,1)));
  Tab T;
  std::vector<int> P;
  fill(A,T,P,3,3,true,0x082);
  A.compressPattern();
  for (int k = 0; k < 9; k++)
    vc_eq(A(k/3+1,k%3+1),T[k/3][k%3],"compressed form holds the stored entries");
  StdVector x(3), y;
  vc_fill(x.ptr(),3,"x");
  A.multiply(x,y);
  for (int i = 0; i < 3; i++)
    vc_eq(y[i],T[i][0]*x[0]+T[i][1]*x[1]+T[i][2]*x[2],"matrix-vector product");
}

//! The row-oriented form of the transposed matrix
CONTRACT(H_transposed)
{
  int m = vc_pick("m",1,3), n = vc_pick("n",1,2);
  SparseMatrix A(m,n,SparseMatrix::S_A_M_G);
  Tab T, R;
  std::vector<int> P;
  fill(A,T,P,m,n);
  R.assign(n,std::vector<double>(m));
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) R[j][i] = T[i][j];
  vc_true(A.optimiseRows(true),"converted");
  vc_true(!A.optimiseRows(true),"converted only once");
  same(A,R,count(P),"transposed compressed form");
}

CONTRACT(H_infinity_norm)
{
  int m = vc_pick("m",1,2), n = vc_pick("n",1,2), s = vc_pick("solver",0,3);
  SparseMatrix A(m,n,solverType(s));
  Tab T;
  std::vector<int> P;
  fill(A,T,P,m,n);
  if (s < 3 && vc_pick("compressed",0,1)) A.compressPattern();
  infNorm(A,T);
}

//! Adding matrices of different storage form and solver type
CONTRACT(H_add_forms)
{
  int n = 2, form = vc_pick("form",0,2);
  SparseMatrix A(n,n,solverType(vc_pick("solverA",0,form < 2 ? 3 : 0)));
  SparseMatrix B(n,n,solverType(vc_pick("solverB",0,form < 2 ? 2 : 1)));
  Tab TA, TB;
  std::vector<int> PA, PB;
  fill(A,TA,PA,n,n,false,form < 2 ? 9 : 0);
  fill(B,TB,PB,n,n,false,form < 2 ? 2 : 0);
  if (form >= 1) B.compressPattern();
  double alpha = vc_real("alpha");
  bool ok;
  if (form < 2) {
    ok = A.add(B,alpha);
    vc_true(ok,"added");
  }
  else { // a sum of compressed matrices is formed only if their patterns match
    SparseMatrix C(n,n,B.getType() == LinAlg::SAMG ? SparseMatrix::S_A_M_G : SparseMatrix::SUPERLU);
    for (int k = 0; k < n*n; k++)
      if (PA[k]) C(k/n+1,k%n+1) = TA[k/n][k%n];
    C.compressPattern();
    ok = C.add(B,alpha);
    if (PA == PB) vc_true(ok,"matching patterns are added");
    else vc_true(!ok,"different patterns are refused");
    for (int k = 0; k < n*n; k++)
      vc_eq(C(k/n+1,k%n+1),TA[k/n][k%n] + (ok ? alpha*TB[k/n][k%n] : 0.0),"sum");
    return;
  }
  for (int k = 0; k < n*n; k++) {
    vc_eq(A(k/n+1,k%n+1),TA[k/n][k%n]+alpha*TB[k/n][k%n],"sum");
    vc_eq(B(k/n+1,k%n+1),TB[k/n][k%n],"the added matrix is unchanged");
  }
  SparseMatrix D(n-1,n,SparseMatrix::SUPERLU);
  vc_true(!D.add(A,alpha),"a larger matrix is refused");
}

//! Adding to the diagonal
CONTRACT(H_add_diagonal)
{
  int m = vc_pick("m",1,3), n = vc_pick("n",2,3), s = vc_pick("solver",0,2);
  SparseMatrix A(m,n,solverType(s));
  Tab T(m,std::vector<double>(n,0.0));
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++)
      if (i == j || (i+j)%2) A(i+1,j+1) = T[i][j] = vc_real("a");
  A.initNonZeroEqs();
  if (vc_pick("compressed",0,1)) A.compressPattern();
  double sigma = vc_real("sigma");
  int ieq = vc_pick("equation",0,4);
  vc_assume(ieq <= n || ieq > m);
  bool ok = A.add(sigma,ieq);
  vc_eqi(ok,ieq <= m,"only existing equations");
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++)
      vc_eq(A(i+1,j+1),T[i][j] + (i == j && ok && (ieq == 0 || ieq == i+1) ? sigma : 0.0),"added to the addressed diagonal terms only");
}

//! Compressed row arrays of the pattern
CONTRACT(H_row_pointers)
{
  int m = vc_pick("m",1,3), n = vc_pick("n",1,3);
  SparseMatrix A(m,n);
  Tab T;
  std::vector<int> P;
  fill(A,T,P,m,n);
  IntVec ia, ja;
  A.calcCSR(ia,ja);
  vc_eqi(ia.size(),m+1,"one start index for each row");
  vc_eqi(ja.size(),count(P),"one column index for each entry");
  if ((int)ia.size() != m+1 || (int)ja.size() != count(P)) return;
  int k = 0;
  for (int i = 0; i < m; i++) {
    vc_eqi(ia[i],k,"start of the row");
    for (int j = 0; j < n; j++)
      if (P[i*n+j]) vc_eqi(ja[k++],j,"column index");
  }
  vc_eqi(ia[m],k,"end of the last row");
}

//! Splitting into sub-matrices and extracting columns
CONTRACT(H_split)
{
  int n = vc_pick("n",2,3);
  SparseMatrix A(n,n,solverType(n-2));
  Tab T;
  std::vector<int> P;
  fill(A,T,P,n,n,false,n == 2 ? 0 : vc_thorough() ? 0x001 : 0x165);
  for (int c = 0; c <= n+1; c++) {
    Vector col(1);
    bool ok = A.getColumn(c,col);
    vc_eqi(ok,count(P) > 0 && c > 0 && c <= n,"existing column");
    vc_eqi(col.size(),n,"length of the column");
    for (int i = 0; i < n && (int)col.size() == n; i++)
      vc_eq(col[i],ok ? T[i][c-1] : 0.0,"column of the matrix");
  }
  IntVec eq2;
  std::vector<int> grp(n), loc(n);
  int n1 = 0;
  for (int i = 0; i < n; i++) {
    grp[i] = vc_pick("second",0,1);
    if (grp[i]) { loc[i] = eq2.size()+1; eq2.push_back(i+1); }
    else loc[i] = ++n1;
  }
  std::array<SparseMatrix,4> S;
  bool ok = A.split(S,eq2);
  vc_eqi(ok,count(P) > 0 && n1 > 0 && n1 < n,"split when both parts exist");
  if (!ok) return;
  int n2 = n-n1, nz = 0;
  for (int k = 0; k < 4; k++) {
    vc_eqi(S[k].rows(),k == 0 || k == 2 ? n1 : n2,"rows of the sub-matrix");
    vc_eqi(S[k].cols(),k < 2 ? n1 : n2,"columns of the sub-matrix");
    nz += S[k].size();
  }
  vc_eqi(nz,count(P),"no entry is lost");
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      const SparseMatrix& B = S[grp[i]+2*grp[j]];
      vc_eq(B(loc[i],loc[j]),T[i][j],"entry of the sub-matrix");
    }
}

CONTRACT(H_truncate)
{
  int n = 2;
  SparseMatrix A(n,n);
  Tab T;
  std::vector<int> P;
  fill(A,T,P,n,n);
  bool lock = vc_pick("locked",0,1);
  if (lock) A.lockPattern(true);
  double tol = vc_real_range("threshold",0.0,1.0);
  double dmax = std::max(absv(T[0][0]),absv(T[1][1]));
  int w = vc_pick("compressed",0,1);
  if (w) A.compressPattern();
  // without a solver there is no compressed form
  vc_true(A.truncate(tol),"truncated");
  for (int k = 0; k < n*n; k++) {
    double t = T[k/n][k%n];
    vc_eq(A(k/n+1,k%n+1),absv(t) >= tol*dmax ? t : 0.0,"only terms below the threshold are dropped");
  }
  if (lock) vc_eqi(A.size(),count(P),"locked pattern is retained");
}

CONTRACT(H_augment_and_redim)
{
  int m = vc_pick("m",1,2), n = vc_pick("n",1,2), r0 = vc_pick("r0",0,2), c0 = vc_pick("c0",0,2);
  SparseMatrix A(2,2), B(m,n);
  Tab T, TB;
  std::vector<int> P, PB;
  fill(A,T,P,2,2,false,vc_thorough() ? 0 : 7);
  fill(B,TB,PB,m,n);
  vc_true(A.augment(B,r0,c0),"augmented");
  int N = std::max(2,std::max(r0+m,c0+n));
  vc_eqi(A.rows(),N,"rows of the augmented matrix");
  vc_eqi(A.cols(),N,"columns of the augmented matrix");
  if ((int)A.rows() != N || (int)A.cols() != N) return;
  Tab R(N,std::vector<double>(N,0.0));
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) R[i][j] = T[i][j];
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      R[r0+i][c0+j] += TB[i][j];
      R[c0+j][r0+i] += TB[i][j];
    }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vc_eq(A(i+1,j+1),R[i][j],"augmented matrix");
  int m2 = 1+(r0+m)%3, n2 = 1+(c0+n+r0)%4;
  vc_true(A.redim(m2,n2),"dimension changed");
  vc_eqi(A.rows(),m2,"new number of rows");
  vc_eqi(A.cols(),n2,"new number of columns");
  for (int i = 0; i < m2; i++)
    for (int j = 0; j < n2; j++)
      vc_eq(((const SparseMatrix&)A)(i+1,j+1),i < N && j < N ? R[i][j] : 0.0,"content within the new dimension is kept");
  int nz = 0;
  for (auto& v : A.getValues()) {
    vc_true((int)v.first.first <= m2 && (int)v.first.second <= n2,"no entry outside of the matrix");
    nz++;
  }
  vc_eqi(nz,A.size(),"number of stored entries");
}

//! Vectors of nodes added to columns follow the constraint equations
static void assembleColumn(int mesh)
{
  TModel m = pickModel(mesh,false);
  TSam s(m);
  if (!s.ok || m.neq == 0) return;
  int nn = m.nd.size(), n = vc_pick("node",1,nn), w = vc_pick("values",0,1), col = 2;
  SparseMatrix A(m.neq,5);
  RealArray v(w ? m.nd[n-1] : 1);
  vc_fill(v.data(),v.size(),"v");
  Tab R(m.neq,std::vector<double>(5,0.0));
  for (int e = 0; e < 2; e++) {
    bool ok = w ? A.assembleCol(v,s,n,col) : A.assembleCol(v[0],s,n,col);
    vc_true(ok,"nodal vector added");
  }
  vc_true(!A.assembleCol(v,s,n,6),"no such column");
  for (int d = 0; d < m.nd[n-1]; d++)
    for (int p = 0; p < m.neq; p++) R[p][col-1+d] += 2.0*m.T[m.first[n-1]+d][p]*v[w ? d : 0];
  for (int p = 0; p < m.neq; p++)
    for (int c = 0; c < 5; c++)
      vc_eq(((const SparseMatrix&)A)(p+1,c+1),R[p][c],"column of the rectangular matrix");
}

CONTRACT(H_assemble_column)     { assembleColumn(0); }
CONTRACT(T_assemble_column_121) { assembleColumn(1); }

//! The entries written to a file in coordinate format
CONTRACT(N_dump)
{
  int m = 1+vc_pick("m",0,2), n = 1+vc_pick("n",0,2), s = vc_pick("solver",0,3);
  SparseMatrix A(m,n,solverType(s));
  Tab T;
  std::vector<int> P;
  fill(A,T,P,m,n);
  if (count(P) == 0) return;
  if (vc_pick("compressed",0,1)) A.compressPattern();
  std::stringstream str;
  str.precision(17);
  static_cast<SystemMatrix&>(A).dump(str,LinAlg::MATRIX_MARKET,nullptr);
  std::string header;
  std::getline(str,header);
  int r, c, nz;
  str >> r >> c >> nz;
  vc_eqi(r,m,"rows"); vc_eqi(c,n,"columns"); vc_eqi(nz,count(P),"number of entries");
  double v;
  int k = 0;
  for (; str >> r >> c >> v; k++) {
    vc_true(r > 0 && r <= m && c > 0 && c <= n,"entry inside of the matrix");
    if (r > 0 && r <= m && c > 0 && c <= n) vc_near(v,T[r-1][c-1],1.0e-12,"entry written");
  }
  vc_eqi(k,nz,"all entries are written once");
}
