// VC-TU: src/LinAlg/MatVec.C
// VC-TIME: 250
// VC-PATHS: 30000
// VC-ASSUME: the dimension of the matrix or vector is a multiple of the dimension of the nodal rotation
#include "vc.h"
#include "MatVec.h"

static Matrix arb(int m, int n, const char* nm)
{
  Matrix a(m,n);
  vc_fill(a.ptr(),m*n,nm);
  return a;
}

//! entry of the block-diagonal matrix with Tn repeated
static double T(const Matrix& Tn, int i, int j)
{
  int N = Tn.rows();
  return i/N == j/N ? Tn(1+i%N,1+j%N) : 0.0;
}

static void congruence(int N, int nb, int extra = 0)
{
  int M = N*nb;
  Matrix A = arb(M,M,"a"), Tn = arb(N,N+extra,"t"), A0(A);
  vc_true(utl::transform(A,Tn),"transformed");
  for (int i = 0; i < M; i++)
    for (int j = 0; j < M; j++) {
      double s = 0.0;
      for (int k = 0; k < M; k++)
        for (int l = 0; l < M; l++) s += T(Tn,i,k)*A0(k+1,l+1)*T(Tn,j,l);
      vc_eq(A(i+1,j+1),s,"T A T'");
    }
}

CONTRACT(H_matrix_1x4) { congruence(1,4); }
CONTRACT(H_matrix_2x1) { congruence(2,1,1); }
CONTRACT(H_matrix_2x2) { congruence(2,2); }
CONTRACT(H_matrix_2x3) { congruence(2,3); }
CONTRACT(H_matrix_3x1) { congruence(3,1); }
CONTRACT(H_matrix_3x2) { congruence(3,2); }
CONTRACT(T_matrix_3x3) { congruence(3,3); }
CONTRACT(T_matrix_2x4) { congruence(2,4); }

CONTRACT(H_vector)
{
  int N = vc_pick("N",1,4), nb = vc_pick("blocks",1,4), M = N*nb, tr = vc_pick("transposed",0,1);
  Vector V(M);
  vc_fill(V.ptr(),M,"v");
  Vector V0(V);
  Matrix Tn = arb(N,N+vc_pick("extra",0,1),"t");
  vc_true(tr ? utl::transform(V,Tn,true) : utl::transform(V,Tn),"transformed");
  for (int i = 0; i < M; i++) {
    double s = 0.0;
    for (int k = 0; k < M; k++) s += (tr ? T(Tn,k,i) : T(Tn,i,k))*V0[k];
    vc_eq(V[i],s,tr ? "T'v" : "T v");
  }
}

//! Two transformations after each other are one with the product of the rotations, whatever they are; hence the one with
//! the transposed rotation takes the first one back whenever the rotation is orthogonal
static void back(int N, int nb)
{
  int M = N*nb;
  Matrix A = arb(M,M,"a"), P = arb(N,N,"p"), Q = arb(N,N,"q"), A0(A), B(A);
  vc_true(utl::transform(A,P),"transformed");
  vc_true(utl::transform(A,Q),"transformed");
  Matrix QP(N,N);
  for (int i = 1; i <= N; i++) for (int j = 1; j <= N; j++) for (int k = 1; k <= N; k++) QP(i,j) += Q(i,k)*P(k,j);
  vc_true(utl::transform(B,QP),"transformed");
  for (int i = 1; i <= M; i++) for (int j = 1; j <= M; j++) vc_eq(A(i,j),B(i,j),"one transformation by the product");
  Matrix I(N,N);
  for (int i = 1; i <= N; i++) I(i,i) = 1.0;
  B = A0;
  utl::transform(B,I);
  for (int i = 1; i <= M; i++) for (int j = 1; j <= M; j++) vc_eq(B(i,j),A0(i,j),"unchanged by the identity");
}

CONTRACT(H_back_1x2) { back(1,2); }
CONTRACT(H_back_2x1) { back(2,1); }
CONTRACT(H_back_2x2) { back(2,2); }
CONTRACT(T_back_3x1) { back(3,1); }

CONTRACT(H_vector_back)
{
  int N = vc_pick("N",1,3), nb = vc_pick("blocks",1,3), M = N*nb;
  Vector V(M);
  vc_fill(V.ptr(),M,"v");
  Vector V0(V);
  Matrix P = arb(N,N,"p");
  vc_true(utl::transform(V,P,false),"transformed");
  vc_true(utl::transform(V,P,true),"transformed");
  for (int b = 0; b < nb; b++)
    for (int i = 1; i <= N; i++) {
      double s = 0.0;
      for (int j = 1; j <= N; j++)
        for (int k = 1; k <= N; k++) s += P(j,i)*P(j,k)*V0[b*N+k-1];
      vc_eq(V[b*N+i-1],s,"T'T v");
    }
}

CONTRACT(H_refused)
{
  int M = vc_pick("M",1,3), N = vc_pick("N",1,3), c = vc_pick("columns",1,3), ca = vc_pick("acolumns",1,4);
  bool wide = c >= N;
  vc_assume(M < N || !wide || ca > M);
  Matrix A = arb(M,ca,"a"), Tn = arb(N,c,"t"), A0(A);
  vc_true(!utl::transform(A,Tn),"incompatible dimensions are refused");
  for (int i = 1; i <= M; i++) for (int j = 1; j <= ca; j++) vc_eq(A(i,j),A0(i,j),"refused matrix is unchanged");
  if (M < N || !wide) {
    Vector V(M);
    vc_fill(V.ptr(),M,"v");
    Vector V0(V);
    vc_true(!utl::transform(V,Tn),"incompatible dimensions are refused");
    for (int i = 0; i < M; i++) vc_eq(V[i],V0[i],"refused vector is unchanged");
  }
}
