// VC-TU: src/LinAlg/MatVec.C
// VC-TIME: 200
#include "vc.h"
#include "MatVec.h"
#include "matrixnd.h"

static Vector vec(int n, const char* nm) { Vector v(n); vc_fill(v.ptr(),n,nm); return v; }
static void mat(Matrix& A, int m, int n, const char* nm) { A.resize(m,n); vc_fill(A.ptr(),m*n,nm); }
static bool dims(const Matrix& A, int m, int n, const char* label)
{
  bool ok = A.rows() == (size_t)m && A.cols() == (size_t)n && A.size() == (size_t)(m*n) && A.toVec().size() == (size_t)(m*n);
  vc_true(ok,label);
  return ok;
}

CONTRACT(H_vector_resize)
{
  int n = vc_size("n",0,3), m = vc_size("m",0,3), how = vc_pick("clear",0,2);
  const Vector X = vec(n,"X");
  Vector Y(X);
  vc_true(Y.resize(m,(char)how) == (n != m),"resizing tells whether the size changed");
  vc_eqi(Y.size(),m,"size after resizing");
  if (Y.size() != (size_t)m) return;
  for (int i = 0; i < m; i++)
    if (how == 2 || (how == 0 && n == m)) vc_eq(Y[i],i < n ? X[i] : 0.0,"retained entries are kept and new ones are zero");
    else vc_eq(Y[i],0.0,"resizing clears the vector");
  Vector Z(X); double c = vc_real("c");
  Z.push_back(c);
  Z.push_back(X.begin(),X.end());
  vc_eqi(Z.size(),2*n+1,"appending extends the vector");
  for (int i = 0; i < 2*n+1 && i < (int)Z.size(); i++) vc_eq(Z[i],i == n ? c : X[i < n ? i : i-n-1],"appended values");
  Vector W(X); W.fill(c);
  for (int i = 0; i < n; i++) vc_eq(W[i],c,"filling with a constant");
  Vector U(vec(m,"U")), V(X); const Vector U0(U);
  U.swap(V);
  vc_true(U.size() == (size_t)n && V.size() == (size_t)m,"swapping exchanges the sizes");
  for (int i = 0; i < n && i < (int)U.size(); i++) vc_eq(U[i],X[i],"swapping exchanges the contents");
  for (int i = 0; i < m && i < (int)V.size(); i++) vc_eq(V[i],U0[i],"swapping exchanges the contents");
}

CONTRACT(H_matrix_resize)
{
  int m = vc_size("m",0,3), n = vc_size("n",1,3), r = vc_size("r",1,3), c = vc_size("c",0,3);
  bool force = vc_pick("force",0,1), ext = vc_pick("external",0,1);
  Vector store;
  Matrix A0, own, other(store);
  if (m) mat(A0,m,n,"A");
  Matrix& A = ext ? other : own;
  if (m) A = A0;
  A.resize(r,c,force);
  if (!dims(A,r,c,"dimension after resizing")) return;
  if (ext) vc_eqi(store.size(),r*c,"external storage follows the size of the matrix");
  for (int i = 1; i <= r; i++)
    for (int j = 1; j <= c; j++)
      if (force) vc_eq(A(i,j),0.0,"forced clearing leaves zeros only");
      else if (m == r) vc_eq(A(i,j),j <= n ? A0(i,j) : 0.0,"columns are kept and new ones are zero");
      else if (m*n != r*c) vc_eq(A(i,j),0.0,"changing the number of rows clears the matrix");
  Matrix B(A0);
  if (m) {
    dims(B,m,n,"dimension of a copy");
    for (int i = 1; i <= m; i++) for (int j = 1; j <= n; j++) vc_eq(B(i,j),A0(i,j),"copied entries");
  }
  A = A0;
  vc_true(A.rows() == A0.rows() && A.cols() == A0.cols() && A.toVec().size() == A0.size(),"dimension of the assigned matrix");
  for (size_t i = 1; i <= A0.rows(); i++) for (size_t j = 1; j <= A0.cols(); j++) vc_eq(A(i,j),A0(i,j),"assigned entries");
}

CONTRACT(H_expand_rows)
{
  int m = vc_size("m",1,4), n = vc_size("n",1,3), inc = vc_pick("inc",-4,3);
  bool set = vc_pick("set",0,1);
  Matrix A; mat(A,m,n,"A");
  const Matrix A0(A);
  int r = m+inc;
  A.expandRows(set ? r : inc,set);
  if (r < 1) { vc_true(A.rows() == 0 && A.cols() == 0 && A.empty(),"removing all rows empties the matrix"); return; }
  if (!dims(A,r,n,"dimension after changing the number of rows")) return;
  for (int i = 1; i <= r; i++)
    for (int j = 1; j <= n; j++) vc_eq(A(i,j),i <= m ? A0(i,j) : 0.0,"rows are kept and new ones are zero");
}

CONTRACT(H_augment)
{
  int m = vc_size("m",1,3), n = vc_size("n",1,3), r = vc_size("r",1,3), c = vc_size("c",1,3);
  bool pre = vc_pick("prepend",0,1);
  Matrix A, B; mat(A,m,n,"A"); mat(B,r,c,"B");
  Matrix C(A), D(A);
  vc_true(C.augmentRows(B,pre) == (n == c),"appended rows must have the same length");
  if (n != c) { if (dims(C,m,n,"refused rows leave the matrix alone")) vc_eq(C(m,n),A(m,n),"refused rows leave the matrix alone"); }
  else if (dims(C,m+r,n,"dimension after adding rows"))
    for (int j = 1; j <= n; j++)
      for (int i = 1; i <= m+r; i++)
        vc_eq(C(i,j),pre ? (i <= r ? B(i,j) : A(i-r,j)) : (i <= m ? A(i,j) : B(i-m,j)),"augmented rows");
  vc_true(D.augmentCols(B) == (m == r),"appended columns must have the same length");
  if (m == r && dims(D,m,n+c,"dimension after adding columns"))
    for (int j = 1; j <= n+c; j++)
      for (int i = 1; i <= m; i++) vc_eq(D(i,j),j <= n ? A(i,j) : B(i,j-n),"augmented columns");
}

CONTRACT(H_rows_and_columns)
{
  int m = vc_size("m",1,3), n = vc_size("n",1,3), r = vc_pick("r",1,3), c = vc_pick("c",1,3);
  vc_assume(r <= m && c <= n);
  Matrix A; mat(A,m,n,"A");
  const Matrix A0(A);
  Vector row(A.getRow(r));
  std::vector<double> col(A.getColumn(c));
  vc_true(row.size() == (size_t)n && col.size() == (size_t)m,"length of extracted rows and columns");
  for (int j = 1; j <= n && j <= (int)row.size(); j++) vc_eq(row(j),A0(r,j),"extracted row");
  for (int i = 1; i <= m && i <= (int)col.size(); i++) vc_eq(col[i-1],A0(i,c),"extracted column");
  int nd = vc_pick("ndata",0,4);
  const Vector X = vec(4,"X"), S = vec(nd,"S");
  A.fillColumn(c,X.ptr());
  for (int i = 1; i <= m; i++) for (int j = 1; j <= n; j++) vc_eq(A(i,j),j == c ? X(i) : A0(i,j),"filling a column touches that column only");
  Matrix B(A0);
  B.fillColumn(c,static_cast<const std::vector<double>&>(S));
  for (int i = 1; i <= m; i++) for (int j = 1; j <= n; j++) vc_eq(B(i,j),j == c && i <= nd ? S(i) : A0(i,j),"filling a column from an array of any length");
  Matrix C(A0);
  C.fillRow(r,X.ptr());
  for (int i = 1; i <= m; i++) for (int j = 1; j <= n; j++) vc_eq(C(i,j),i == r ? X(j) : A0(i,j),"filling a row touches that row only");
  Matrix D(A0);
  D = static_cast<const std::vector<double>&>(S);
  dims(D,m,n,"assigning an array keeps the dimension");
  for (int j = 1; j <= n; j++) for (int i = 1; i <= m; i++) { int k = i+m*(j-1); vc_eq(D(i,j),k <= nd ? S(k) : 0.0,"assigning an array fills column by column"); }
  vc_true(A.ptr(c-1) == &A(1,c),"pointer to a column");
  vc_true(A.ptr(n) == nullptr,"no pointer beyond the last column");
}

CONTRACT(H_blocks)
{
  int m = vc_size("m",1,3), n = vc_size("n",1,3), br = vc_size("br",1,2), bc = vc_size("bc",1,2);
  int r = vc_pick("r",1,3), c = vc_pick("c",1,3);
  bool tr = vc_pick("transposed",0,1);
  vc_assume(r <= m && c <= n);
  double s = vc_real("s");
  Matrix A, B; mat(A,m,n,"A"); mat(B,br,bc,"B");
  const Matrix A0(A), B0(B);
  int nr = tr ? bc : br, nc = tr ? br : bc;
  Matrix C(A);
  A.fillBlock(B,r,c,tr);
  C.addBlock(B,s,r,c,tr);
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= n; j++) {
      bool in = i >= r && i < r+nr && j >= c && j < c+nc;
      double b = in ? (tr ? B0(j-c+1,i-r+1) : B0(i-r+1,j-c+1)) : 0.0;
      vc_eq(A(i,j),in ? b : A0(i,j),"inserting a block touches its entries only");
      vc_eq(C(i,j),A0(i,j)+(in ? s*b : 0.0),"adding a block touches its entries only");
    }
  bool add = vc_pick("addTo",0,1);
  Matrix E(B0);
  A0.extractBlock(E,r,c,add,tr);
  if (dims(E,br,bc,"extracting a block keeps its dimension"))
    for (int i = 1; i <= br; i++)
      for (int j = 1; j <= bc; j++) {
        int I = r-1+(tr ? j : i), J = c-1+(tr ? i : j);
        bool in = I <= m && J <= n;
        vc_eq(E(i,j),in ? (add ? B0(i,j) : 0.0)+A0(I,J) : B0(i,j),"extracted block");
      }
}

CONTRACT(H_fill)
{
  int k = vc_size("size",0,6), n = vc_pick("n",0,3), m = vc_pick("m",0,3);
  const Vector V = vec(k,"V");
  Matrix A; mat(A,2,2,"A");
  const Matrix A0(A);
  int M = m == 0 && n > 0 ? k/n : m;
  vc_assume(n == 0 || k < n || (M > 0 && k%M == 0)); // the array holds M columns
  A.fill(static_cast<const std::vector<double>&>(V),n,m);
  if (n == 0 || k < n) {
    if (dims(A,2,2,"filling from a too short array does nothing"))
      for (int i = 1; i <= 2; i++) for (int j = 1; j <= 2; j++) vc_eq(A(i,j),A0(i,j),"filling from a too short array does nothing");
    return;
  }
  int len = k/M; // number of rows in the array
  if (!dims(A,n,M,"dimension after filling from an array")) return;
  for (int j = 1; j <= M; j++)
    for (int i = 1; i <= n; i++) vc_eq(A(i,j),i <= len ? V(i+len*(j-1)) : 0.0,"columns of the array go to the columns of the matrix");
}

CONTRACT(H_diagonal)
{
  int m = vc_size("m",1,3), n = vc_size("n",1,3), d = vc_pick("dim",0,3), how = vc_pick("how",0,2);
  Matrix A; mat(A,m,n,"A");
  double v[3]; vc_fill(v,3,"v");
  if (how == 0) A.diag(v[0],d);
  else if (how == 1) A.diag(v,d);
  else A.diag(std::vector<double>(v,v+d));
  if (how == 2 && d == 0) { vc_true(A.empty() && A.rows() == 0,"empty diagonal gives an empty matrix"); return; }
  int M = d ? d : m, N = d ? d : n;
  if (!dims(A,M,N,"dimension of a diagonal matrix")) return;
  for (int i = 1; i <= M; i++)
    for (int j = 1; j <= N; j++) vc_eq(A(i,j),i == j ? v[how ? i-1 : 0] : 0.0,"diagonal matrix");
}

CONTRACT(H_matrix3d)
{
  int a = vc_size("n1",1,3), b = vc_size("n2",1,2), c = vc_size("n3",1,2);
  Matrix3D A(a,b,c); vc_fill(A.ptr(),a*b*c,"A");
  const Matrix3D A0(A);
  vc_true(A.dim(1) == (size_t)a && A.dim(2) == (size_t)b && A.dim(3) == (size_t)c && A.size() == (size_t)(a*b*c),"dimension of a 3D matrix");
  for (int k = 1; k <= c; k++)
    for (int j = 1; j <= b; j++) {
      for (int i = 1; i <= a; i++) {
        vc_eq(A(i,j,k),A0(i,j,k),"copied 3D matrix");
        vc_true(&A(i,j,k) == A.ptr()+(i-1)+a*((j-1)+b*(k-1)),"the first index runs fastest");
      }
      Vector col(A0.getColumn(j,k));
      vc_eqi(col.size(),a,"length of a column of a 3D matrix");
      for (int i = 1; i <= a && i <= (int)col.size(); i++) vc_eq(col(i),A0(i,j,k),"column of a 3D matrix");
    }
  int J = vc_pick("j",1,2), K = vc_pick("k",1,2), nd = vc_pick("ndata",0,3);
  vc_assume(J <= b && K <= c);
  const Vector S = vec(nd,"S");
  A.fillColumn(J,K,S);
  for (int k = 1; k <= c; k++)
    for (int j = 1; j <= b; j++)
      for (int i = 1; i <= a; i++) vc_eq(A(i,j,k),j == J && k == K && i <= nd ? S(i) : A0(i,j,k),"filling a column of a 3D matrix touches that column only");
  if (b <= c) for (int i = 1; i <= a; i++) {
    double t = 0.0;
    for (int j = 1; j <= b; j++) t += A0(i,j,j);
    if (b == c) vc_eq(A0.trace(i),t,"trace of a sub-matrix");
  }
  double s = vc_real("s");
  Matrix3D B(A0), C(A0), D; D = A0;
  B.multiply(s); C.add(A,s);
  for (int k = 1; k <= c; k++) for (int j = 1; j <= b; j++) for (int i = 1; i <= a; i++) {
    vc_eq(B(i,j,k),s*A0(i,j,k),"scaling a 3D matrix");
    vc_eq(C(i,j,k),A0(i,j,k)+s*A(i,j,k),"adding 3D matrices");
    vc_eq(D(i,j,k),A0(i,j,k),"assigning a 3D matrix");
  }
}

CONTRACT(H_matrix3d_resize)
{
  int a = vc_size("n1",1,2), b = vc_size("n2",1,2), c = vc_size("n3",1,2);
  int p = vc_size("m1",1,2), q = vc_size("m2",1,2), r = vc_size("m3",0,3);
  bool force = vc_pick("force",0,1);
  Matrix3D A(a,b,c); vc_fill(A.ptr(),a*b*c,"A");
  const Matrix3D A0(A);
  A.resize(p,q,r,force);
  vc_true(A.dim(1) == (size_t)p && A.dim(2) == (size_t)q && A.dim(3) == (size_t)r && A.toVec().size() == (size_t)(p*q*r),"dimension of a resized 3D matrix");
  if (A.toVec().size() != (size_t)(p*q*r)) return;
  for (int k = 1; k <= r; k++) for (int j = 1; j <= q; j++) for (int i = 1; i <= p; i++)
    if (force) vc_eq(A(i,j,k),0.0,"forced clearing of a 3D matrix leaves zeros only");
    else if (p == a && q == b) vc_eq(A(i,j,k),k <= c ? A0(i,j,k) : 0.0,"layers of a 3D matrix are kept and new ones are zero");
    else if (p*q*r != a*b*c) vc_eq(A(i,j,k),0.0,"changing the inner dimensions clears the 3D matrix");
}

CONTRACT(H_matrix3d_product)
{
  int M = vc_size("M",1,2), K = vc_size("K",1,2), p = vc_size("n2",1,2), q = vc_size("n3",1,2);
  bool tr = vc_pick("trans",0,1), add = vc_pick("addTo",0,1), arr = vc_pick("array",0,1);
  vc_assume(!(tr && arr));
  Matrix A; mat(A,tr ? K : M,tr ? M : K,"A");
  Matrix3D B(K,p,q), C(M,p,q);
  vc_fill(B.ptr(),K*p*q,"B"); vc_fill(C.ptr(),M*p*q,"C");
  const Matrix3D C0(C);
  bool ok = arr ? C.multiplyMat(static_cast<const std::vector<double>&>(A),B,add) : C.multiply(A,B,tr,add);
  vc_true(ok && C.dim(1) == (size_t)M && C.dim(2) == (size_t)p && C.dim(3) == (size_t)q,"dimension of the 3D matrix product");
  if (!ok) return;
  for (int i = 1; i <= M; i++) for (int j = 1; j <= p; j++) for (int k = 1; k <= q; k++) {
    double e = add ? C0(i,j,k) : 0.0;
    for (int l = 1; l <= K; l++) e += (tr ? A(l,i) : A(i,l))*B(l,j,k);
    vc_eq(C(i,j,k),e,"product of a matrix and a 3D matrix");
  }
  Matrix W(M,K+1);
  vc_true(!C.multiply(W,B),"incompatible 3D matrix products are refused");
}

CONTRACT(H_matrix4d)
{
  int a = vc_size("n1",1,2), b = vc_size("n2",1,2), c = vc_size("n3",1,2), d = vc_size("n4",1,2);
  Matrix4D A(a,b,c,d); vc_fill(A.ptr(),a*b*c*d,"A");
  const Matrix4D A0(A);
  int J = vc_pick("j",1,2), K = vc_pick("k",1,2), L = vc_pick("l",1,2);
  vc_assume(J <= b && K <= c && L <= d);
  Vector col(A0.getColumn(J,K,L));
  vc_eqi(col.size(),a,"length of a column of a 4D matrix");
  for (int i = 1; i <= a && i <= (int)col.size(); i++) vc_eq(col(i),A0(i,J,K,L),"column of a 4D matrix");
  vc_true(&A(1,J,K,L) == A.ptr()+a*((J-1)+b*((K-1)+c*(L-1))),"the first index of a 4D matrix runs fastest");
  const Vector S = vec(a,"S");
  A.fillColumn(J,K,L,S);
  for (int l = 1; l <= d; l++) for (int k = 1; k <= c; k++) for (int j = 1; j <= b; j++) for (int i = 1; i <= a; i++)
    vc_eq(A(i,j,k,l),j == J && k == K && l == L ? S(i) : A0(i,j,k,l),"filling a column of a 4D matrix touches that column only");
  int r = vc_pick("m4",1,3), q = vc_pick("m3",1,2);
  bool force = vc_pick("force",0,1);
  Matrix4D B(A0);
  B.resize(a,b,q,r,force);
  vc_true(B.dim(4) == (size_t)r && B.toVec().size() == (size_t)(a*b*q*r),"dimension of a resized 4D matrix");
  for (int l = 1; l <= r; l++) for (int k = 1; k <= q; k++) for (int j = 1; j <= b; j++) for (int i = 1; i <= a; i++)
    if (force) vc_eq(B(i,j,k,l),0.0,"forced clearing of a 4D matrix leaves zeros only");
    else if (q == c) vc_eq(B(i,j,k,l),l <= d ? A0(i,j,k,l) : 0.0,"blocks of a 4D matrix are kept and new ones are zero");
    else if (q*r != c*d) vc_eq(B(i,j,k,l),0.0,"changing the inner dimensions clears the 4D matrix");
}
