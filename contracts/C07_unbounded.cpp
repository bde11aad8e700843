// Contracts for vectors and matrices of any size: every loop is decided by induction.
// VC-TU: src/LinAlg/MatVec.C
// VC-TIME: 200
#include "vc.h"
#include "MatVec.h"
#include "matrixnd.h"

static Vector vec(size_t n, const char* nm) { Vector v(n); vc_fill(v.ptr(),n,nm); return v; }
static void mat(Matrix& A, size_t m, size_t n, const char* nm) { A.resize(m,n); vc_fill(A.ptr(),m*n,nm); }

CONTRACT(P_vector_scaling)
{
  size_t n = vc_size("n",0,6);
  double c = vc_real("c");
  const Vector X = vec(n,"X");
  Vector A(X); A *= c;
  vc_eqi(A.size(),n,"length of a scaled vector");
  for (size_t i = 0; i < n; i++) vc_eq(A[i],c*X[i],"scaling multiplies every entry");
}

CONTRACT(P_vector_sums)
{
  size_t n = vc_size("n",1,6);
  const Vector X = vec(n,"X"), Y = vec(n,"Y");
  double s = 0.0, d = 0.0, a = 0.0;
  for (size_t i = 0; i < n; i++) { s += X[i]; d += X[i]*Y[i]; a += fabs(X[i]); }
  vc_eq(X.sum(),s,"sum of the entries");
  vc_eq(X.dot(Y),d,"scalar product");
  vc_eq(X.asum(),a,"sum of the absolute values");
}

CONTRACT(P_matrix_vector)
{
  size_t M = vc_size("M",1,4), N = vc_size("N",1,4);
  Matrix A; mat(A,M,N,"A");
  const Vector X = vec(N,"X");
  Vector Y;
  vc_true(A.multiply(X,Y),"matrix-vector product of compatible dimensions");
  vc_eqi(Y.size(),M,"length of the matrix-vector product");
  for (size_t i = 1; i <= M; i++) {
    double e = 0.0;
    for (size_t k = 1; k <= N; k++) e += A(i,k)*X(k);
    vc_eq(Y(i),e,"matrix-vector product");
  }
}

CONTRACT(P_vector_add)
{
  size_t n = vc_size("n",1,6);
  double a = vc_real("a");
  const Vector X = vec(n,"X"), Y = vec(n,"Y");
  Vector R(Y); R.add(X,a);
  Vector P(Y); P += X;
  Vector D(Y); D -= X;
  Vector S(X+Y), T(X-Y), U(X*a), V(a*X);
  for (size_t i = 0; i < n; i++) {
    vc_eq(R[i],Y[i]+a*X[i],"addition of a scaled vector");
    vc_eq(P[i],Y[i]+X[i],"addition");
    vc_eq(D[i],Y[i]-X[i],"subtraction");
    vc_eq(S[i],X[i]+Y[i],"sum of vectors");
    vc_eq(T[i],X[i]-Y[i],"difference of vectors");
    vc_eq(U[i],a*X[i],"vector times scalar");
    vc_eq(V[i],a*X[i],"scalar times vector");
  }
}

CONTRACT(P_vector_fill)
{
  size_t n = vc_size("n",0,6), m = vc_size("m",0,6);
  double c = vc_real("c");
  Vector X = vec(n,"X");
  const Vector X0(X);
  vc_eqi(X0.size(),n,"length of a copy");
  size_t i = vc_index("i",n+1);
  if (i < n) vc_eq(X0[i],X[i],"a copy has the same values");
  X.fill(c);
  if (i < n) vc_eq(X[i],c,"filling sets every entry");
  Vector Y(X0);
  Y.resize(m,true);
  vc_eqi(Y.size(),m,"length after resizing");
  size_t k = vc_index("k",m+1);
  if (k < m) vc_eq(Y[k],0.0,"resizing clears the contents");
  X.clear();
  vc_true(X.empty() && X.size() == 0,"a cleared vector is empty");
}

CONTRACT(P_matrix_basic)
{
  size_t M = vc_size("M",1,4), N = vc_size("N",1,4);
  double c = vc_real("c");
  Matrix A, B; mat(A,M,N,"A"); mat(B,M,N,"B");
  vc_true(A.rows() == M && A.cols() == N && A.size() == M*N,"dimension of a matrix");
  Matrix C(A); C.add(B,c);
  Matrix S(A); S *= c;
  Matrix T(A,true);
  vc_true(T.rows() == N && T.cols() == M,"dimension of the transpose");
  size_t i = 1+vc_index("i",M), j = 1+vc_index("j",N);
  vc_eq(C(i,j),A(i,j)+c*B(i,j),"addition of a scaled matrix");
  vc_eq(S(i,j),c*A(i,j),"scaling of a matrix");
  vc_eq(T(j,i),A(i,j),"transpose");
  Vector r = A.getRow(i), q = A.getColumn(j);
  vc_true(r.size() == N && q.size() == M,"dimension of rows and columns");
  vc_eq(r(j),A(i,j),"row of a matrix");
  vc_eq(q(i),A(i,j),"column of a matrix");
}

CONTRACT(P_matrix_transposed_vector)
{
  size_t M = vc_size("M",1,4), N = vc_size("N",1,4);
  Matrix A; mat(A,M,N,"A");
  const Vector X = vec(M,"X");
  Vector Y = vec(N,"Y");
  const Vector Y0(Y);
  vc_true(A.multiply(X,Y,true,(char)1),"matrix-vector product of compatible dimensions");
  vc_eqi(Y.size(),N,"length of the matrix-vector product");
  for (size_t i = 1; i <= N; i++) {
    double e = Y0(i);
    for (size_t k = 1; k <= M; k++) e += A(k,i)*X(k);
    vc_eq(Y(i),e,"matrix-vector product");
  }
}

CONTRACT(P_matrix_product)
{
  size_t M = vc_size("M",1,3), N = vc_size("N",1,3), K = vc_size("K",1,3);
  bool tA = vc_pick("transA",0,1), tB = vc_pick("transB",0,1), add = vc_pick("addTo",0,1);
  double alpha = vc_real("alpha");
  Matrix A, B, C;
  mat(A,tA ? K : M,tA ? M : K,"A"); mat(B,tB ? N : K,tB ? K : N,"B");
  mat(C,M,N,"C");
  const Matrix C0(C);
  C.multiply(A,B,tA,tB,add,alpha);
  vc_true(C.rows() == M && C.cols() == N,"dimension of the matrix product");
  size_t i = 1+vc_index("i",M), j = 1+vc_index("j",N);
  double e = add ? C0(i,j) : 0.0;
  for (size_t k = 1; k <= K; k++) e += alpha*(tA ? A(k,i) : A(i,k))*(tB ? B(j,k) : B(k,j));
  vc_eq(C(i,j),e,"matrix product");
}

CONTRACT(P_outer_product)
{
  size_t M = vc_size("M",1,4), N = vc_size("N",1,4);
  double a = vc_real("a");
  const Vector X = vec(M,"X"), Y = vec(N,"Y");
  Matrix A; mat(A,M,N,"A");
  Matrix B(A);
  const Matrix A0(A);
  vc_true(B.outer_product(X,Y,true,a) && A.outer_product(X,Y),"outer product of compatible dimensions");
  vc_true(A.rows() == M && A.cols() == N && B.rows() == M && B.cols() == N,"dimension of the outer product");
  size_t i = 1+vc_index("i",M), j = 1+vc_index("j",N);
  vc_eq(A(i,j),X(i)*Y(j),"outer product");
  vc_eq(B(i,j),A0(i,j)+a*X(i)*Y(j),"scaled outer product added to a matrix");
}

CONTRACT(P_vector_componentwise)
{
  size_t n = vc_size("n",1,3), m = vc_size("m",1,3);
  const Vector X = vec(n,"X"), Z = vec(m,"Z");
  Vector E(X); E *= static_cast<const std::vector<double>&>(Z);
  size_t i = vc_index("i",n);
  vc_eqi(E.size(),n,"length of the component-wise product");
  vc_eq(E[i],i < m ? X[i]*Z[i] : X[i],"component-wise product");
}

CONTRACT(P_vector_division)
{
  size_t n = vc_size("n",1,3);
  double c = vc_real("c");
  const Vector X = vec(n,"X");
  vc_assume(c > 0.01 || c < -0.01);
  Vector B(X); B /= c;
  Vector D(X/c);
  size_t i = vc_index("i",n);
  vc_eq(B[i]*c,X[i],"division by a scalar");
  vc_eq(D[i]*c,X[i],"vector divided by a scalar");
}

CONTRACT(P_vector_relax)
{
  size_t n = vc_size("n",1,3);
  double a = vc_real("a");
  const Vector X = vec(n,"X"), Y = vec(n,"Y");
  Vector Z(Y), W;
  Z.relax(a,X); W.relax(a,X,Y);
  vc_true(Z.size() == n && W.size() == n,"length of the relaxed vectors");
  size_t i = vc_index("i",n);
  vc_eq(Z[i],a*Y[i]+(1.0-a)*X[i],"relaxation");
  vc_eq(W[i],a*Y[i]+(1.0-a)*X[i],"relaxation of two vectors");
}

CONTRACT(P_vector_add_offset)
{
  size_t n = vc_size("n",1,3), ox = vc_size("ox",0,2), oy = vc_size("oy",0,2);
  double a = vc_real("a");
  const Vector X = vec(n+ox,"X"), Y = vec(n+oy,"Y");
  Vector R(Y);
  R.add(X,a,ox,1,oy,1);
  vc_eqi(R.size(),n+oy,"the length is unchanged");
  size_t i = vc_index("i",n);
  vc_eq(R[oy+i],Y[oy+i]+a*X[ox+i],"addition from an offset");
  if (oy > 0) { size_t k = vc_index("k",oy); vc_eq(R[k],Y[k],"entries before the offset are left alone"); }
}

CONTRACT(P_vector_add_strided)
{
  size_t n = vc_size("n",1,3), sx = vc_size("sx",1,3), sy = vc_size("sy",1,3), ox = vc_index("ox",sx), oy = vc_index("oy",sy);
  double a = vc_real("a");
  const Vector X = vec(n*sx,"X"), Y = vec(n*sy,"Y");
  Vector R(Y);
  R.add(X,a,ox,sx,oy,sy);
  size_t i = vc_index("i",n), k = vc_index("k",sy);
  vc_eq(R[i*sy+k],Y[i*sy+k]+(k == oy ? a*X[ox+i*sx] : 0.0),"strided addition");
}

CONTRACT(P_vector_products)
{
  size_t n = vc_size("n",1,4), ox = vc_size("ox",0,2), oy = vc_size("oy",0,2);
  const Vector X = vec(n+ox,"X"), Y = vec(n+oy,"Y");
  double d = 0.0, q = 0.0, s = 0.0, as = 0.0;
  for (size_t i = 0; i < n; i++) { d += X[ox+i]*Y[oy+i]; q += X[ox+i]*X[ox+i]; s += X[ox+i]; as += fabs(X[ox+i]); }
  vc_eq(X.dot(Y,ox,1,oy,1),d,"dot product");
  double nrm = X.norm2(ox);
  vc_true(nrm >= 0.0,"the norm is non-negative");
  vc_eq(nrm*nrm,q,"Euclidean norm");
  vc_eq(X.sum(ox),s,"sum");
  vc_eq(X.asum(ox),as,"sum of absolute values");
}

CONTRACT(P_vector_strided)
{
  size_t n = vc_size("n",1,3), inc = vc_size("inc",1,3), off = vc_index("off",inc), i2 = vc_size("inc2",1,2);
  const Vector X = vec(n*inc,"X"), Y = vec(n*i2,"Y");
  double d = 0.0, q = 0.0, s = 0.0, as = 0.0;
  for (size_t i = 0; i < n; i++) { double x = X[off+i*inc]; d += x*Y[i*i2]; q += x*x; s += x; as += fabs(x); }
  vc_eq(X.dot(Y,off,inc,0,i2),d,"dot product of a component");
  double nrm = X.norm2(off,inc);
  vc_eq(nrm*nrm,q,"Euclidean norm of a component");
  vc_eq(X.sum(off,inc),s,"sum of a component");
  vc_eq(X.asum(off,inc),as,"absolute sum of a component");
}

CONTRACT(P_matrix_sums)
{
  size_t m = vc_size("m",1,3), n = vc_size("n",1,3);
  Matrix A; mat(A,m,n,"A");
  size_t i = 1+vc_index("i",m), j = 1+vc_index("j",n);
  double r = 0.0, c = 0.0, q = 0.0, t = 0.0;
  for (size_t k = 1; k <= n; k++) r += A(i,k);
  for (size_t k = 1; k <= m; k++) c += A(k,j);
  for (size_t k = 0; k < m*n; k++) { t += A.ptr()[k]; q += A.ptr()[k]*A.ptr()[k]; }
  vc_eq(A.rowsum(i),r,"row sum");
  vc_eq(A.colsum(j),c,"column sum");
  vc_eq(A.sum(),t,"sum of all elements");
  double nr = A.norm2();
  vc_eq(nr*nr,q,"Frobenius norm");
}

CONTRACT(P_matrix_trace)
{
  size_t n = vc_size("n",1,3);
  Matrix A; mat(A,n,n,"A");
  double t = 0.0;
  for (size_t k = 1; k <= n; k++) t += A(k,k);
  vc_eq(A.trace(),t,"trace");
}

CONTRACT(P_column_scaling)
{
  size_t m = vc_size("m",1,3), n = vc_size("n",1,3), nd = vc_size("nd",1,3);
  Matrix A; mat(A,m,n,"A");
  const Vector d = vec(nd,"d");
  Matrix W(A); W.scale(d.ptr(),nd);
  size_t i = 1+vc_index("i",m), j = 1+vc_index("j",n);
  vc_eq(W(i,j),j <= nd ? A(i,j)*d(j) : A(i,j),"column scaling");
}

CONTRACT(P_product_with_vector_stored)
{
  size_t M = vc_size("M",1,2), N = vc_size("N",1,2), K = vc_size("K",1,2);
  bool tr = vc_pick("trans",0,1), left = vc_pick("left",0,1), add = vc_pick("addTo",0,1);
  Matrix A, B, C;
  mat(A,left && tr ? K : M,left && tr ? M : K,"A"); mat(B,!left && tr ? N : K,!left && tr ? K : N,"B");
  mat(C,M,N,"C");
  const Matrix C0(C);
  bool ok = left ? C.multiplyMat(A,static_cast<const std::vector<double>&>(B),tr,add)
                 : C.multiplyMat(static_cast<const std::vector<double>&>(A),B,tr,add);
  vc_true(ok && C.rows() == M && C.cols() == N,"dimension of the product with a vector-stored matrix");
  if (!ok || C.rows() != M || C.cols() != N) return;
  size_t i = 1+vc_index("i",M), j = 1+vc_index("j",N);
  double e = add ? C0(i,j) : 0.0;
  for (size_t k = 1; k <= K; k++) e += (left && tr ? A(k,i) : A(i,k))*(!left && tr ? B(j,k) : B(k,j));
  vc_eq(C(i,j),e,"product with a vector-stored matrix");
}

CONTRACT(P_matrix_vector_modes)
{
  size_t M = vc_size("M",1,3), N = vc_size("N",1,3);
  bool tr = vc_pick("trans",0,1);
  int how = vc_pick("addTo",-1,1);
  size_t nY = tr ? N : M, nX = tr ? M : N;
  Matrix A; mat(A,M,N,"A");
  const Vector X = vec(nX,"X");
  Vector Y(vec(nY,"Y"));
  const Vector Y0(Y);
  vc_true(A.multiply(X,Y,tr,(char)how),"matrix-vector product of compatible dimensions");
  vc_eqi(Y.size(),nY,"length of the matrix-vector product");
  size_t i = 1+vc_index("i",nY);
  double e = 0.0;
  for (size_t k = 1; k <= nX; k++) e += (tr ? A(k,i) : A(i,k))*X(k);
  vc_eq(Y(i),(how == 0 ? 0.0 : Y0(i)) + (how < 0 ? -e : e),"matrix-vector product");
}

CONTRACT(P_matrix_vector_scaled)
{
  size_t M = vc_size("M",1,2), N = vc_size("N",1,2), sx = vc_size("stridex",1,2), sy = vc_size("stridey",1,2);
  bool tr = vc_pick("trans",0,1);
  int mode = vc_pick("beta",0,2); // zero, one, any
  size_t nY = tr ? N : M, nX = tr ? M : N;
  double alpha = vc_real("alpha"), beta = mode < 2 ? mode : vc_real("beta");
  Matrix A; mat(A,M,N,"A");
  const Vector X(vec(nX*sx,"X"));
  size_t ox = vc_index("ofsx",sx), oy = vc_index("ofsy",sy);
  Vector Y(vec(1+(nY-1)*sy+oy,"Y"));
  const Vector Y0(Y);
  vc_true(A.multiply(X,Y,alpha,beta,tr,sx,sy,ox,oy),"scaled matrix-vector product of compatible dimensions");
  vc_eqi(Y.size(),1+(nY-1)*sy+oy,"length of the scaled matrix-vector product");
  size_t i = vc_index("i",nY), p = vc_index("p",sy);
  double e = 0.0;
  for (size_t k = 0; k < nX; k++) e += (tr ? A(1+k,1+i) : A(1+i,1+k))*X[ox+k*sx];
  if (p == oy) vc_eq(Y[oy+i*sy],beta*Y0[oy+i*sy]+alpha*e,"scaled matrix-vector product");
  else if (mode == 1 && p+i*sy < Y.size()) vc_eq(Y[p+i*sy],Y0[p+i*sy],"entries between the strides are left alone");
}
