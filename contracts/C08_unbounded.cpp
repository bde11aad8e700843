// Contracts for matrices and vectors of any size: every loop is decided by induction and every entry through an arbitrary index.
// VC-TU: src/LinAlg/MatVec.C
// VC-TIME: 200
#include "vc.h"
#include "MatVec.h"
#include "matrixnd.h"

static Vector vec(size_t n, const char* nm) { Vector v(n); vc_fill(v.ptr(),n,nm); return v; }
static void mat(Matrix& A, size_t m, size_t n, const char* nm) { A.resize(m,n); vc_fill(A.ptr(),m*n,nm); }
static bool dims(const Matrix& A, size_t m, size_t n, const char* label)
{
  bool ok = A.rows() == m && A.cols() == n && A.size() == m*n && A.toVec().size() == m*n;
  vc_true(ok,label);
  return ok;
}

CONTRACT(P_vector_resize)
{
  size_t n = vc_size("n",0,3), m = vc_size("m",1,3); int how = vc_pick("clear",0,2);
  const Vector X = vec(n,"X");
  Vector Y(X);
  vc_true(Y.resize(m,(char)how) == (n != m),"resizing tells whether the size changed");
  vc_eqi(Y.size(),m,"size after resizing");
  size_t i = vc_index("i",m);
  if (how == 2 || (how == 0 && n == m)) vc_eq(Y[i],i < n ? X[i] : 0.0,"retained entries are kept and new ones are zero");
  else vc_eq(Y[i],0.0,"resizing clears the vector");
  double c = vc_real("c");
  Vector W(m); W.fill(c);
  vc_eq(W[i],c,"filling with a constant");
  Vector U(vec(m,"U")), V(X); const Vector U0(U);
  U.swap(V);
  vc_true(U.size() == n && V.size() == m,"swapping exchanges the sizes");
  vc_eq(V[i],U0[i],"swapping exchanges the contents");
}

CONTRACT(P_append)
{
  size_t n = vc_size("n",1,3);
  const Vector X = vec(n,"X");
  Vector Z(X); double c = vc_real("c");
  Z.push_back(c);
  vc_eqi(Z.size(),n+1,"appending extends the vector");
  size_t i = vc_index("i",n);
  vc_eq(Z[i],X[i],"appending keeps the values");
  vc_eq(Z[n],c,"appended value");
  Vector Y(X);
  Y.push_back(X.begin(),X.end());
  vc_eqi(Y.size(),2*n,"appending extends the vector");
  vc_eq(Y[i],X[i],"appending keeps the values");
  vc_eq(Y[n+i],X[i],"appended values");
}

CONTRACT(P_matrix_resize)
{
  size_t m = vc_size("m",1,3), n = vc_size("n",1,3), r = vc_size("r",1,3), c = vc_size("c",1,3);
  bool force = vc_pick("force",0,1);
  Matrix A; mat(A,m,n,"A");
  const Matrix A0(A);
  A.resize(r,c,force);
  if (!dims(A,r,c,"dimension after resizing")) return;
  size_t i = 1+vc_index("i",r), j = 1+vc_index("j",c);
  if (force) vc_eq(A(i,j),0.0,"forced clearing leaves zeros only");
  else if (m == r) vc_eq(A(i,j),j <= n ? A0(i,j) : 0.0,"columns are kept and new ones are zero");
  else if (m*n != r*c) vc_eq(A(i,j),0.0,"changing the number of rows clears the matrix");
}

CONTRACT(P_augment_columns)
{
  size_t m = vc_size("m",1,3), n = vc_size("n",1,3), r = vc_size("r",1,3);
  Matrix A, D; mat(A,m,n,"A"); mat(D,m,r,"D");
  size_t i = 1+vc_index("i",m), k = 1+vc_index("k",r), j = 1+vc_index("j",n);
  Matrix F(A);
  vc_true(F.augmentCols(D),"columns of the same length are appended");
  if (!dims(F,m,n+r,"dimension after adding columns")) return;
  vc_eq(F(i,j),A(i,j),"augmented columns");
  vc_eq(F(i,n+k),D(i,k),"augmented columns");
}

CONTRACT(P_rows_and_columns)
{
  size_t m = vc_size("m",1,3), n = vc_size("n",1,3);
  size_t r = 1+vc_index("r",m), c = 1+vc_index("c",n), i = 1+vc_index("i",m), j = 1+vc_index("j",n);
  Matrix A; mat(A,m,n,"A");
  const Matrix A0(A);
  Vector row(A.getRow(r));
  std::vector<double> col(A.getColumn(c));
  vc_true(row.size() == n && col.size() == m,"length of extracted rows and columns");
  vc_eq(row(j),A0(r,j),"extracted row");
  vc_eq(col[i-1],A0(i,c),"extracted column");
  const Vector X = vec(m,"X"), Y = vec(n,"Y");
  A.fillColumn(c,X.ptr());
  vc_eq(A(i,j),j == c ? X(i) : A0(i,j),"filling a column touches that column only");
  Matrix B(A0);
  B.fillColumn(c,static_cast<const std::vector<double>&>(X));
  vc_eq(B(i,j),j == c ? X(i) : A0(i,j),"filling a column from an array");
  Matrix C(A0);
  C.fillRow(r,Y.ptr());
  vc_eq(C(i,j),i == r ? Y(j) : A0(i,j),"filling a row touches that row only");
  vc_true(A.ptr(c-1) == &A(1,c),"pointer to a column");
  vc_true(A.ptr(n) == nullptr,"no pointer beyond the last column");
}

CONTRACT(P_fill)
{
  size_t len = vc_size("len",1,3), M = vc_size("M",1,3), n = vc_size("n",1,3);
  vc_assume(n <= len);
  const Vector V = vec(len*M,"V");
  Matrix A;
  A.fill(static_cast<const std::vector<double>&>(V),n,M);
  if (!dims(A,n,M,"dimension after filling from an array")) return;
  size_t i = 1+vc_index("i",n), j = 1+vc_index("j",M);
  vc_eq(A(i,j),V(i+len*(j-1)),"columns of the array go to the columns of the matrix");
}

CONTRACT(P_blocks)
{
  size_t m = vc_size("m",1,3), n = vc_size("n",1,3), br = vc_size("br",1,2), bc = vc_size("bc",1,2);
  size_t r = vc_size("r",1,3), c = vc_size("c",1,3);
  bool tr = vc_pick("transposed",0,1);
  size_t nr = tr ? bc : br, nc = tr ? br : bc;
  vc_assume(r <= m && c <= n); // the block may exceed the matrix
  double s = vc_real("s");
  Matrix A, B; mat(A,m,n,"A"); mat(B,br,bc,"B");
  const Matrix A0(A), B0(B);
  Matrix C(A);
  A.fillBlock(B,r,c,tr);
  C.addBlock(B,s,r,c,tr);
  size_t i = 1+vc_index("i",m), j = 1+vc_index("j",n);
  if (i >= r && i < r+nr && j >= c && j < c+nc) {
    double b = tr ? B0(j-c+1,i-r+1) : B0(i-r+1,j-c+1);
    vc_eq(A(i,j),b,"inserting a block");
    vc_eq(C(i,j),A0(i,j)+s*b,"adding a block");
  }
  else {
    vc_eq(A(i,j),A0(i,j),"inserting a block touches its entries only");
    vc_eq(C(i,j),A0(i,j),"adding a block touches its entries only");
  }
  bool add = vc_pick("addTo",0,1);
  Matrix E(B0);
  A0.extractBlock(E,r,c,add,tr);
  if (!dims(E,br,bc,"extracting a block keeps its dimension")) return;
  size_t p = 1+vc_index("p",br), q = 1+vc_index("q",bc);
  size_t I = r-1+(tr ? q : p), J = c-1+(tr ? p : q);
  if (I <= m && J <= n) vc_eq(E(p,q),(add ? B0(p,q) : 0.0)+A0(I,J),"extracted block");
  else vc_eq(E(p,q),B0(p,q),"extracting a block beyond the matrix");
}

CONTRACT(P_diagonal)
{
  size_t m = vc_size("m",1,3); int how = vc_pick("how",0,2);
  Matrix A;
  double d = vc_real("d");
  const Vector v = vec(m,"v");
  if (how == 0) A.diag(d,m);
  else if (how == 1) A.diag(v.ptr(),m);
  else A.diag(static_cast<const std::vector<double>&>(v));
  if (!dims(A,m,m,"dimension of a diagonal matrix")) return;
  size_t i = 1+vc_index("i",m), j = 1+vc_index("j",m);
  vc_eq(A(i,j),i == j ? (how ? v(i) : d) : 0.0,"diagonal matrix");
}

static size_t small(const char* nm) { size_t n = vc_size(nm,1,2); vc_assume(n <= 30000); return n; }

CONTRACT(P_matrix3d)
{
  size_t a = small("n1"), b = small("n2"), c = small("n3");
  Matrix3D A(a,b,c); vc_fill(A.ptr(),a*b*c,"A");
  const Matrix3D A0(A);
  vc_true(A.dim(1) == a && A.dim(2) == b && A.dim(3) == c && A.size() == a*b*c,"dimension of a 3D matrix");
  size_t i = 1+vc_index("i",a), j = 1+vc_index("j",b), k = 1+vc_index("k",c);
  vc_eq(A(i,j,k),A0(i,j,k),"copied 3D matrix");
  vc_true(&A(i,j,k) == A.ptr()+(i-1)+a*((j-1)+b*(k-1)),"the first index runs fastest");
  size_t J = 1+vc_index("J",b), K = 1+vc_index("K",c);
  Vector col(A0.getColumn(J,K));
  vc_eqi(col.size(),a,"length of a column of a 3D matrix");
  vc_eq(col(i),A0(i,J,K),"column of a 3D matrix");
  const Vector S = vec(a,"S");
  A.fillColumn(J,K,S);
  vc_eq(A(i,j,k),j == J && k == K ? S(i) : A0(i,j,k),"filling a column of a 3D matrix touches that column only");
  double s = vc_real("s");
  Matrix3D B(A0), C(A0), D; D = A0;
  B.multiply(s); C.add(B,s);
  vc_eq(B(i,j,k),s*A0(i,j,k),"scaling a 3D matrix");
  vc_eq(C(i,j,k),A0(i,j,k)+s*B(i,j,k),"adding 3D matrices");
  vc_eq(D(i,j,k),A0(i,j,k),"assigning a 3D matrix");
}

CONTRACT(P_matrix3d_trace)
{
  size_t a = small("n1"), b = small("n2");
  Matrix3D A(a,b,b); vc_fill(A.ptr(),a*b*b,"A");
  size_t i = 1+vc_index("i",a);
  double t = 0.0;
  for (size_t j = 1; j <= b; j++) t += A(i,j,j);
  vc_eq(A.trace(i),t,"trace of a sub-matrix");
}

CONTRACT(P_matrix3d_resize)
{
  size_t a = small("n1"), b = small("n2"), c = small("n3");
  size_t p = small("m1"), q = small("m2"), r = small("m3");
  bool force = vc_pick("force",0,1);
  Matrix3D A(a,b,c); vc_fill(A.ptr(),a*b*c,"A");
  const Matrix3D A0(A);
  A.resize(p,q,r,force);
  vc_true(A.dim(1) == p && A.dim(2) == q && A.dim(3) == r && A.toVec().size() == p*q*r,"dimension of a resized 3D matrix");
  size_t i = 1+vc_index("i",p), j = 1+vc_index("j",q), k = 1+vc_index("k",r);
  if (force) vc_eq(A(i,j,k),0.0,"forced clearing of a 3D matrix leaves zeros only");
  else if (p == a && q == b) vc_eq(A(i,j,k),k <= c ? A0(i,j,k) : 0.0,"layers of a 3D matrix are kept and new ones are zero");
  else if (p*q*r != a*b*c) vc_eq(A(i,j,k),0.0,"changing the inner dimensions clears the 3D matrix");
}

CONTRACT(P_matrix3d_product)
{
  size_t M = small("M"), K = small("K"), p = small("n2"), q = small("n3");
  bool tr = vc_pick("trans",0,1), add = vc_pick("addTo",0,1), arr = vc_pick("array",0,1);
  vc_assume(!(tr && arr));
  Matrix A; mat(A,tr ? K : M,tr ? M : K,"A");
  Matrix3D B(K,p,q), C(M,p,q);
  vc_fill(B.ptr(),K*p*q,"B"); vc_fill(C.ptr(),M*p*q,"C");
  const Matrix3D C0(C);
  bool ok = arr ? C.multiplyMat(static_cast<const std::vector<double>&>(A),B,add) : C.multiply(A,B,tr,add);
  vc_true(ok && C.dim(1) == M && C.dim(2) == p && C.dim(3) == q,"dimension of the 3D matrix product");
  if (!ok) return;
  size_t i = 1+vc_index("i",M), j = 1+vc_index("j",p), k = 1+vc_index("k",q);
  double e = add ? C0(i,j,k) : 0.0;
  for (size_t l = 1; l <= K; l++) e += (tr ? A(l,i) : A(i,l))*B(l,j,k);
  vc_eq(C(i,j,k),e,"product of a matrix and a 3D matrix");
}

CONTRACT(P_matrix4d)
{
  size_t a = small("n1"), b = small("n2"), c = small("n3"), d = small("n4");
  Matrix4D A(a,b,c,d); vc_fill(A.ptr(),a*b*c*d,"A");
  const Matrix4D A0(A);
  size_t i = 1+vc_index("i",a), j = 1+vc_index("j",b), k = 1+vc_index("k",c), l = 1+vc_index("l",d);
  size_t J = 1+vc_index("J",b), K = 1+vc_index("K",c), L = 1+vc_index("L",d);
  Vector col(A0.getColumn(J,K,L));
  vc_eqi(col.size(),a,"length of a column of a 4D matrix");
  vc_eq(col(i),A0(i,J,K,L),"column of a 4D matrix");
  vc_true(&A(1,J,K,L) == A.ptr()+a*((J-1)+b*((K-1)+c*(L-1))),"the first index of a 4D matrix runs fastest");
  const Vector S = vec(a,"S");
  A.fillColumn(J,K,L,S);
  vc_eq(A(i,J,K,L),S(i),"filled column of a 4D matrix");
  switch (vc_pick("dir",2,4)) {
    case 2: if (j != J) vc_eq(A(i,j,K,L),A0(i,j,K,L),"filling a column of a 4D matrix touches that column only"); break;
    case 3: if (k != K) vc_eq(A(i,J,k,L),A0(i,J,k,L),"filling a column of a 4D matrix touches that column only"); break;
    case 4: if (l != L) vc_eq(A(i,J,K,l),A0(i,J,K,l),"filling a column of a 4D matrix touches that column only"); break;
  }
}
