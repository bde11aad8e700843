// Contracts for utl::vector and utl::matrix, shared by the BLAS and the no-BLAS variants of the methods.
#include "vc.h"
#include "MatVec.h"
#include "matrixnd.h"

static Vector vec(int n, const char* nm) { Vector v(n); vc_fill(v.ptr(),n,nm); return v; }
static void mat(Matrix& A, int m, int n, const char* nm) { A.resize(m,n); vc_fill(A.ptr(),m*n,nm); }

CONTRACT(H_vector_scaling)
{
  int n = vc_size("n",0,3), m = vc_size("m",0,3);
  double c = vc_real("c");
  const Vector X = vec(n,"X"), Z = vec(m,"Z");
  Vector A(X); A *= c;
  for (int i = 0; i < n; i++) vc_eq(A[i],c*X[i],"scaling multiplies every entry");
  Vector E(X); E *= static_cast<const std::vector<double>&>(Z);
  for (int i = 0; i < n; i++) vc_eq(E[i],i < m ? X[i]*Z[i] : X[i],"component-wise product");
  Vector F(X); F /= static_cast<const std::vector<double>&>(Z);
  for (int i = 0; i < n; i++)
    if (i >= m) vc_eq(F[i],X[i],"component-wise division touches the common range only");
    else if (Z[i] == 0.0) vc_eq(F[i],0.0,"component-wise division by zero gives zero");
    else vc_eq(F[i]*Z[i],X[i],"component-wise division");
  Vector G(X*c), H(c*X);
  for (int i = 0; i < n; i++) { vc_eq(G(1+i),c*X[i],"vector times scalar"); vc_eq(H(1+i),c*X[i],"scalar times vector"); }
  vc_assume(c > 0.01 || c < -0.01);
  Vector B(X); B /= c;
  for (int i = 0; i < n; i++) vc_eq(B[i]*c,X[i],"division by a scalar");
  Vector D(X/c);
  for (int i = 0; i < n; i++) vc_eq(D[i]*c,X[i],"vector divided by a scalar");
}

CONTRACT(H_vector_add)
{
  int n = vc_size("n",1,4), m = vc_size("m",1,4);
  double a = vc_real("a");
  int sx = vc_pick("stridex",0,2), sy = vc_pick("stridey",0,2), ox = vc_pick("ofsx",0,1), oy = vc_pick("ofsy",0,2);
  vc_assume(sx+sy > 0 && ox < n && oy < m);
  const Vector X = vec(n,"X"), Y = vec(m,"Y");
  Vector R(Y);
  R.add(X,a,ox,sx,oy,sy);
  double e[4];
  for (int i = 0; i < m; i++) e[i] = Y[i];
  for (int k = 0; ox+k*sx < n && oy+k*sy < m; k++) e[oy+k*sy] += a*X[ox+k*sx];
  vc_eqi(R.size(),m,"the length is unchanged");
  for (int i = 0; i < m; i++) vc_eq(R[i],e[i],"strided addition");
}

CONTRACT(H_vector_add_plain)
{
  int n = vc_size("n",0,4), m = vc_size("m",0,4);
  double a = vc_real("a");
  const Vector X = vec(n,"X"), Y = vec(m,"Y");
  Vector R(Y);
  R.add(X,a);
  vc_eqi(R.size(),m ? m : n,"adding to an empty vector gives the length of the argument");
  for (int i = 0; i < (int)R.size(); i++) vc_eq(R[i],(i < m ? Y[i] : 0.0) + (i < n ? a*X[i] : 0.0),"addition of a scaled vector");
  if (n == m) {
    Vector P(Y), M(Y);
    P += X; M -= X;
    Vector Q(X+Y), S(X-Y);
    for (int i = 0; i < n; i++) {
      vc_eq(P[i],X[i]+Y[i],"addition"); vc_eq(M[i],Y[i]-X[i],"subtraction");
      vc_eq(Q[i],X[i]+Y[i],"sum of two vectors"); vc_eq(S[i],X[i]-Y[i],"difference of two vectors");
    }
    Vector Z(Y), W;
    Z.relax(a,X); W.relax(a,X,Y);
    for (int i = 0; i < n; i++) {
      vc_eq(Z[i],a*Y[i]+(1.0-a)*X[i],"relaxation");
      vc_eq(W[i],a*Y[i]+(1.0-a)*X[i],"relaxation of two vectors");
    }
  }
}

CONTRACT(H_vector_products)
{
  int n = vc_size("n",0,4), m = vc_size("m",0,4);
  const Vector X = vec(n,"X"), Y = vec(m,"Y");
  int ox = vc_pick("ofsx",0,1), oy = vc_pick("ofsy",0,1);
  vc_assume(ox <= n && oy <= m);
  double d = 0.0, q = 0.0, s = 0.0, as = 0.0;
  for (int i = 0; ox+i < n && oy+i < m; i++) d += X[ox+i]*Y[oy+i];
  vc_eq(X.dot(Y,ox,1,oy,1),d,"dot product");
  for (int i = ox; i < n; i++) { q += X[i]*X[i]; s += X[i]; as += X[i] < 0.0 ? -X[i] : X[i]; }
  double nrm = X.norm2(ox);
  vc_true(nrm >= 0.0,"the norm is non-negative");
  vc_eq(nrm*nrm,q,"Euclidean norm");
  vc_eq(X.sum(ox),s,"sum");
  vc_eq(X.asum(ox),as,"sum of absolute values");
  if (n == m && ox == 0 && oy == 0) vc_eq(X*Y,d,"inner product operator");
}

CONTRACT(H_vector_strided)
{
  int inc = vc_pick("inc",2,3), nn = vc_pick("n",1,2), off = vc_pick("off",0,2), i2 = vc_pick("inc2",1,2);
  vc_assume(off < inc);
  const Vector X = vec(nn*inc,"X"), Y = vec(nn*i2,"Y");
  double d = 0.0, q = 0.0, s = 0.0, as = 0.0, mx = 0.0;
  for (int i = 0; i < nn; i++) {
    double x = X[off+i*inc], ax = x < 0.0 ? -x : x;
    d += x*Y[i*i2]; q += x*x; s += x; as += ax; if (ax > mx) mx = ax;
  }
  vc_eq(X.dot(Y,off,inc,0,i2),d,"dot product of a component");
  double nrm = X.norm2(off,inc);
  vc_eq(nrm*nrm,q,"Euclidean norm of a component");
  vc_eq(X.sum(off,inc),s,"sum of a component");
  vc_eq(X.asum(off,inc),as,"absolute sum of a component");
  size_t o = off;
  vc_eq(X.normInf(o,inc),mx,"largest absolute value of a component");
}

CONTRACT(H_vector_extremes)
{
  int n = vc_size("n",1,4);
  const Vector X = vec(n,"X");
  double mx = X[0], mn = X[0], am = 0.0;
  for (int i = 0; i < n; i++) {
    if (X[i] > mx) mx = X[i];
    if (X[i] < mn) mn = X[i];
    double a = X[i] < 0.0 ? -X[i] : X[i];
    if (a > am) am = a;
  }
  vc_eq(X.max(),mx,"largest element");
  vc_eq(X.min(),mn,"smallest element");
  vc_eq(X.normInf(),am,"infinity norm");
  size_t o = 0, p = 0;
  double sm = X.normInf(o,1,true);
  vc_eq(sm < 0.0 ? -sm : sm,am,"signed infinity norm has the magnitude of the norm");
  X.normInf(p);
  if (am > 0.0) {
    vc_true(o > 0 && o <= (size_t)n && p > 0 && p <= (size_t)n,"index of the largest element is valid");
    vc_eq(X(o),sm,"signed infinity norm is the value of the element found");
    vc_eq(X(p) < 0.0 ? -X(p) : X(p),am,"index of the largest element");
  }
  double tol = vc_real("tol");
  vc_assume(tol >= 0.0);
  vc_true(X.zero(tol) == (am <= tol),"zero check uses the tolerance");
  Vector e;
  vc_true(e.zero() && e.normInf() == 0.0 && e.sum() == 0.0,"empty vector is zero");
}

CONTRACT(H_matrix_basic)
{
  int m = vc_size("m",1,3), n = vc_size("n",1,3);
  double c = vc_real("c");
  Matrix A, B; mat(A,m,n,"A"); mat(B,m,n,"B");
  Matrix S(A), D(A), C(A), E(A), F(A*c), G(c*A);
  S += B; D -= B; C *= c; E.add(B,c);
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= n; j++) {
      vc_eq(S(i,j),A(i,j)+B(i,j),"matrix addition");
      vc_eq(D(i,j),A(i,j)-B(i,j),"matrix subtraction");
      vc_eq(C(i,j),c*A(i,j),"matrix scaling");
      vc_eq(F(i,j),c*A(i,j),"matrix times scalar");
      vc_eq(G(i,j),c*A(i,j),"scalar times matrix");
      vc_eq(E(i,j),A(i,j)+c*B(i,j),"adding a scaled matrix");
    }
  Matrix T(A,true), U(A); U.transpose();
  vc_true(T.rows() == (size_t)n && T.cols() == (size_t)m && U.rows() == (size_t)n && U.cols() == (size_t)m,"dimension of the transpose");
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= n; j++) {
      vc_eq(T(j,i),A(i,j),"transposed copy");
      vc_eq(U(j,i),A(i,j),"transposition");
    }
  Matrix V(A); V.transpose().transpose();
  for (int i = 1; i <= m; i++) {
    double r = 0.0;
    for (int j = 1; j <= n; j++) { r += A(i,j); vc_eq(V(i,j),A(i,j),"transposing twice restores"); }
    vc_eq(A.rowsum(i),r,"row sum");
  }
  double tot = 0.0, tr = 0.0, q = 0.0;
  for (int j = 1; j <= n; j++) {
    double r = 0.0;
    for (int i = 1; i <= m; i++) { r += A(i,j); q += A(i,j)*A(i,j); }
    vc_eq(A.colsum(j),r,"column sum");
    vc_eq(A.sum(-j),r,"sum of a column by negative increment");
    tot += r;
    if (j <= m) tr += A(j,j);
  }
  vc_eq(A.sum(),tot,"sum of all elements");
  if (m == n) vc_eq(A.trace(),tr,"trace");
  double nr = A.norm2();
  vc_eq(nr*nr,q,"Frobenius norm");
  double d[3]; vc_fill(d,3,"d");
  int nd = vc_pick("ndiag",0,3);
  Matrix W(A); W.scale(d,nd);
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= n; j++) vc_eq(W(i,j),j <= nd ? A(i,j)*d[j-1] : A(i,j),"column scaling");
  if (c > 0.01) {
    Matrix H(A); H /= c;
    for (int i = 1; i <= m; i++) vc_eq(H(i,1)*c,A(i,1),"matrix divided by scalar");
  }
}

CONTRACT(H_matrix_norm)
{
  int m = vc_size("m",0,2), n = vc_size("n",1,2);
  Matrix A; if (m) mat(A,m,n,"A");
  double e = 0.0;
  for (int i = 1; i <= m; i++) {
    double r = 0.0;
    for (int j = 1; j <= n; j++) r += A(i,j) < 0.0 ? -A(i,j) : A(i,j);
    if (r > e) e = r;
  }
  vc_eq(A.normInf(),e,"infinity norm is the largest absolute row sum");
  double tol = vc_real("tol");
  vc_assume(tol >= 0.0);
  bool sy = m == n;
  if (m == 2 && n == 2) { double d = A(1,2)-A(2,1); sy = d <= tol && d >= -tol; }
  if (m) vc_true(A.isSymmetric(tol) == sy,"symmetry check");
}

CONTRACT(H_matrix_determinant)
{
  int n = vc_pick("n",1,3);
  Matrix A; mat(A,n,n,"A");
  double e = 0.0;
  if (n == 1) e = A(1,1);
  else if (n == 2) e = A(1,1)*A(2,2)-A(1,2)*A(2,1);
  else for (int j = 0; j < 3; j++)
    e += A(1,1+j)*(A(2,1+(j+1)%3)*A(3,1+(j+2)%3)-A(2,1+(j+2)%3)*A(3,1+(j+1)%3));
  vc_eq(A.det(),e,"determinant");
  Matrix B(A);
  double tol = vc_real("tol");
  vc_assume(tol >= 0.0);
  double d = B.inverse(tol);
  if (e <= tol && e >= -tol) {
    vc_eq(d,0.0,"a singular matrix is reported");
    for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) vc_eq(B(i,j),A(i,j),"a singular matrix is left unchanged");
    vc_cover("singular matrix");
  }
  else {
    vc_eq(d,e,"inversion returns the determinant");
    for (int i = 1; i <= n; i++)
      for (int j = 1; j <= n; j++) {
        double p = 0.0, q = 0.0;
        for (int k = 1; k <= n; k++) { p += A(i,k)*B(k,j); q += B(i,k)*A(k,j); }
        vc_eq(p,i == j,"matrix times its inverse is the identity");
        vc_eq(q,i == j,"inverse times the matrix is the identity");
      }
    vc_cover("regular matrix");
  }
}

CONTRACT(H_matrix_product)
{
  int M = vc_size("M",1,2), N = vc_size("N",1,2), K = vc_size("K",1,2);
  bool tA = vc_pick("transA",0,1), tB = vc_pick("transB",0,1);
  int how = vc_pick("addTo",0,2); // 0: replace, 1: add to a matrix, 2: add to an empty matrix
  double alpha = vc_real("alpha");
  Matrix A, B, C;
  mat(A,tA ? K : M,tA ? M : K,"A"); mat(B,tB ? N : K,tB ? K : N,"B");
  if (how < 2) mat(C,M,N,"C");
  const Matrix C0(C);
  C.multiply(A,B,tA,tB,how > 0,alpha);
  vc_true(C.rows() == (size_t)M && C.cols() == (size_t)N,"dimension of the matrix product");
  if (C.rows() != (size_t)M || C.cols() != (size_t)N) return;
  for (int i = 1; i <= M; i++)
    for (int j = 1; j <= N; j++) {
      double e = how == 1 ? C0(i,j) : 0.0;
      for (int k = 1; k <= K; k++) e += alpha*(tA ? A(k,i) : A(i,k))*(tB ? B(j,k) : B(k,j));
      vc_eq(C(i,j),e,"matrix product");
    }
  if (!tA && !tB && how == 0) {
    Matrix P(A*B);
    for (int i = 1; i <= M; i++)
      for (int j = 1; j <= N; j++) {
        double e = 0.0;
        for (int k = 1; k <= K; k++) e += A(i,k)*B(k,j);
        vc_eq(P(i,j),e,"matrix product operator");
      }
  }
}

CONTRACT(H_matrix_product_vectors)
{
  int M = vc_size("M",1,2), N = vc_size("N",1,2), K = vc_size("K",1,2);
  bool tr = vc_pick("trans",0,1), left = vc_pick("left",0,1);
  int how = vc_pick("addTo",0,2);
  // either A or B is given by a column-wise vector
  Matrix A, B, C;
  mat(A,left && tr ? K : M,left && tr ? M : K,"A"); mat(B,!left && tr ? N : K,!left && tr ? K : N,"B");
  if (how < 2) mat(C,M,N,"C");
  const Matrix C0(C);
  bool ok = left ? C.multiplyMat(A,static_cast<const std::vector<double>&>(B),tr,how > 0)
                 : C.multiplyMat(static_cast<const std::vector<double>&>(A),B,tr,how > 0);
  vc_true(ok && C.rows() == (size_t)M && C.cols() == (size_t)N,"dimension of the product with a vector-stored matrix");
  if (!ok || C.rows() != (size_t)M || C.cols() != (size_t)N) return;
  for (int i = 1; i <= M; i++)
    for (int j = 1; j <= N; j++) {
      double e = how == 1 ? C0(i,j) : 0.0;
      for (int k = 1; k <= K; k++) e += (left && tr ? A(k,i) : A(i,k))*(!left && tr ? B(j,k) : B(k,j));
      vc_eq(C(i,j),e,"product with a vector-stored matrix");
    }
}

CONTRACT(H_matrix_vector)
{
  int M = vc_size("M",1,3), N = vc_size("N",1,3);
  bool tr = vc_pick("trans",0,1);
  int how = vc_pick("addTo",-1,1), nY = tr ? N : M, nX = tr ? M : N;
  bool em = vc_pick("emptyY",0,1);
  Matrix A; mat(A,M,N,"A");
  const Vector X = vec(nX,"X");
  std::vector<double> Y(em ? 0 : nY);
  vc_fill(Y.data(),Y.size(),"Y");
  const std::vector<double> Y0(Y);
  vc_true(A.multiply(X,Y,tr,(char)how),"matrix-vector product of compatible dimensions");
  vc_eqi(Y.size(),nY,"length of the matrix-vector product");
  if (Y.size() != (size_t)nY) return;
  for (int i = 1; i <= nY; i++) {
    double e = 0.0;
    for (int k = 1; k <= nX; k++) e += (tr ? A(k,i) : A(i,k))*X(k);
    vc_eq(Y[i-1],(how == 0 || em ? 0.0 : Y0[i-1]) + (how < 0 ? -e : e),"matrix-vector product");
  }
  if (how == 0 && !em) {
    Vector P; if (tr) P = X*A; else P = A*X;
    for (int i = 1; i <= nY; i++) {
      double e = 0.0;
      for (int k = 1; k <= nX; k++) e += (tr ? A(k,i) : A(i,k))*X(k);
      vc_eq(P(i),e,"matrix-vector product operator");
    }
  }
}

CONTRACT(H_matrix_vector_scaled)
{
  int M = vc_size("M",1,2), N = vc_size("N",1,2);
  bool tr = vc_pick("trans",0,1);
  int sx = vc_pick("stridex",1,2), sy = vc_pick("stridey",1,2), ox = vc_pick("ofsx",0,1), oy = vc_pick("ofsy",0,1);
  int mode = vc_pick("beta",0,2); // zero, one, any
  int nY = tr ? N : M, nX = tr ? M : N;
  double alpha = vc_real("alpha"), beta = mode < 2 ? mode : vc_real("beta");
  Matrix A; mat(A,M,N,"A");
  std::vector<double> X(ox+1+(nX-1)*sx), Y(oy+1+(nY-1)*sy);
  vc_fill(X.data(),X.size(),"X"); vc_fill(Y.data(),Y.size(),"Y");
  const std::vector<double> Y0(Y);
  vc_true(A.multiply(X,Y,alpha,beta,tr,sx,sy,ox,oy),"scaled matrix-vector product of compatible dimensions");
  vc_eqi(Y.size(),Y0.size(),"length of the scaled matrix-vector product");
  if (Y.size() != Y0.size()) return;
  for (int i = 0; i < nY; i++) {
    double e = 0.0;
    for (int k = 0; k < nX; k++) e += (tr ? A(1+k,1+i) : A(1+i,1+k))*X[ox+k*sx];
    vc_eq(Y[oy+i*sy],beta*Y0[oy+i*sy]+alpha*e,"scaled matrix-vector product");
  }
  if (beta != 0.0) {
    if (oy > 0) vc_eq(Y[0],Y0[0],"entries before the offset are left alone");
    if (sy > 1 && nY > 1) vc_eq(Y[oy+1],Y0[oy+1],"entries between the strides are left alone");
  }
}

CONTRACT(H_outer_product)
{
  int m = vc_size("m",1,3), n = vc_size("n",1,3);
  bool add = vc_pick("addTo",0,1);
  double alpha = vc_real("alpha");
  const Vector X = vec(m,"X"), Y = vec(n,"Y");
  Matrix A;
  if (add || vc_pick("dimensioned",0,1)) mat(A,m,n,"A");
  const Matrix A0(A);
  vc_true(A.outer_product(X,Y,add,alpha),"outer product of compatible dimensions");
  vc_true(A.rows() == (size_t)m && A.cols() == (size_t)n,"dimension of the outer product");
  if (A.rows() != (size_t)m || A.cols() != (size_t)n) return;
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= n; j++) vc_eq(A(i,j),(add ? A0(i,j) : 0.0)+alpha*X(i)*Y(j),"outer product");
}

CONTRACT(H_incompatible)
{
  int m = vc_size("m",0,2), n = vc_size("n",0,2), x = vc_size("x",0,3), y = vc_size("y",1,3);
  Matrix A; if (m && n) mat(A,m,n,"A");
  const Matrix A0(A);
  const Vector X = vec(x,"X"), Z = vec(y,"Z");
  bool emp = m == 0 || n == 0;
  for (int tr = 0; tr < 2; tr++) {
    bool fit = !emp && (tr ? m : n) == x;
    Vector Y(Z);
    vc_true(A.multiply(X,Y,tr > 0) == fit,"incompatible matrix-vector products are refused");
    if (!fit) {
      vc_eqi(Y.size(),y,"a refused product leaves the result alone");
      for (int i = 0; i < y && i < (int)Y.size(); i++) vc_eq(Y[i],Z[i],"a refused product leaves the result values alone");
    }
    Vector W(Z);
    vc_true(A.multiply(X,W,2.0,0.0,tr > 0) == fit,"incompatible scaled matrix-vector products are refused");
    if (!fit) vc_eqi(W.size(),y,"a refused scaled product leaves the result alone");
  }
  if (!emp && x > 0) {
    vc_true(A.outer_product(X,Z,true) == (x == m && y == n),"incompatible outer products are refused");
    if (x != m || y != n)
      for (int i = 1; i <= m; i++) for (int j = 1; j <= n; j++) vc_eq(A(i,j),A0(i,j),"a refused outer product leaves the matrix alone");
    Matrix B(x,y); vc_fill(B.ptr(),x*y,"B");
    Matrix C(1,1); C(1,1) = 7.0;
    C.multiply(A0,B);
    if (n != x) vc_true(C.rows() == 0 && C.cols() == 0 && C.empty(),"an incompatible matrix product leaves an empty matrix");
    Matrix D(1,1); D(1,1) = 7.0;
    bool fit = x%n == 0;
    vc_true(D.multiplyMat(A0,X) == fit,"incompatible product with a vector-stored matrix is refused");
    if (!fit) vc_true(D.rows() == 1 && D.cols() == 1 && D(1,1) == 7.0,"a refused product with a vector-stored matrix leaves the result alone");
    Matrix E(1,1); E(1,1) = 7.0;
    bool fitE = x%m == 0;
    vc_true(E.multiplyMat(X,A0) == fitE,"incompatible product of a vector-stored matrix is refused");
    if (!fitE) vc_true(E.rows() == 1 && E.cols() == 1 && E(1,1) == 7.0,"a refused product of a vector-stored matrix leaves the result alone");
  }
}
