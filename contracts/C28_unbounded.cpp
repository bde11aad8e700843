// The coordinate mapping of elements with any number of nodes.
// VC-TU: src/Utility/CoordinateMapping.C src/Utility/Vec3Oper.C src/LinAlg/MatVec.C
// VC-TIME: 90
#include "vc.h"
#include "CoordinateMapping.h"
#include "Vec3.h"
#include "Profiler.h"
#include <cmath>

Profiler* utl::profiler = nullptr;

using utl::matrix; using utl::matrix3d; using utl::matrix4d;

static void fill2(matrix<double>& A, size_t r, size_t c, const char* nm)
{
  A.resize(r,c);
  vc_fill(A.ptr(),r*c,nm);
}
static void fill3(matrix3d<double>& A, size_t a, size_t b, size_t c, const char* nm)
{
  A.resize(a,b,c);
  vc_fill(A.ptr(),a*b*c,nm);
}
static void tangents(const matrix<double>& X, const matrix<double>& D, double T[3][3])
{
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      T[i][j] = 0.0;
  for (size_t i = 0; i < X.rows(); i++)
    for (size_t j = 0; j < D.cols(); j++) {
      double s = 0.0;
      for (size_t a = 0; a < X.cols(); a++)
        s += X(i+1,a+1)*D(a+1,j+1);
      T[i][j] = s;
    }
}
static double det(const double J[3][3], int n)
{
  if (n == 1) return J[0][0];
  if (n == 2) return J[0][0]*J[1][1] - J[0][1]*J[1][0];
  return J[0][0]*(J[1][1]*J[2][2] - J[1][2]*J[2][1])
       - J[0][1]*(J[1][0]*J[2][2] - J[1][2]*J[2][0])
       + J[0][2]*(J[1][0]*J[2][1] - J[1][1]*J[2][0]);
}
static void checkInverse(const matrix<double>& J, const matrix<double>& G, const matrix<double>& D,
                         const double T[3][3], int nsd)
{
  size_t nen = D.rows(), a = 1+vc_index("a",nen);
  vc_eqi(J.rows(),nsd,"rows of inverse"); vc_eqi(J.cols(),nsd,"columns of inverse");
  for (int i = 0; i < nsd; i++)
    for (int j = 0; j < nsd; j++) {
      double s = 0.0;
      for (int k = 0; k < nsd; k++) s += J(i+1,k+1)*T[k][j];
      vc_eq(s,i == j ? 1.0 : 0.0,"inverse of the Jacobian");
    }
  vc_eqi(G.rows(),nen,"rows of gradients"); vc_eqi(G.cols(),nsd,"columns of gradients");
  for (int j = 0; j < nsd; j++) {
    double s = 0.0;
    for (int k = 0; k < nsd; k++) s += G(a,k+1)*T[k][j];
    vc_eq(s,D(a,j+1),"chain rule");
  }
}

CONTRACT(P_volume)
{
  int nsd = vc_pick("nsd",1,3);
  size_t nen = vc_size("nen",1,5);
  matrix<double> X, D, J, G;
  fill2(X,nsd,nen,"X"); fill2(D,nen,nsd,"dNdu");
  double T[3][3];
  tangents(X,D,T);
  double d = det(T,nsd), dJ = utl::Jacobian(J,G,X,D);
  if (d <= epsZ && d >= -epsZ) {
    vc_cover("singular mapping");
    vc_eq(dJ,0.0,"singular mapping is reported");
    vc_eqi(G.size(),0,"no derivatives at a singular point");
    return;
  }
  vc_cover("regular mapping");
  vc_eq(dJ,d,"Jacobian determinant");
  checkInverse(J,G,D,T,nsd);
}

CONTRACT(P_curve_and_surface)
{
  int nsd = vc_pick("nsd",2,3), npar = vc_pick("npar",1,2);
  size_t nen = vc_size("nen",1,5), a = 1+vc_index("a",nen);
  vc_assume(npar < nsd);
  matrix<double> X, D, J, G;
  fill2(X,nsd,nen,"X"); fill2(D,nen,npar,"dNdu");
  double T[3][3];
  tangents(X,D,T);
  double dJ = utl::Jacobian(J,G,X,D), s;
  if (npar == 1)
    s = T[0][0]*T[0][0] + T[1][0]*T[1][0] + T[2][0]*T[2][0];
  else {
    double p = T[1][0]*T[2][1] - T[2][0]*T[1][1], q = T[2][0]*T[0][1] - T[0][0]*T[2][1],
           c = T[0][0]*T[1][1] - T[1][0]*T[0][1];
    s = p*p + q*q + c*c;
  }
  vc_eq(dJ*dJ,s,"length or area of the tangents");
  vc_true(dJ >= 0.0,"dilation is not negative");
  vc_eqi(J.rows(),nsd,"rows of the Jacobian"); vc_eqi(J.cols(),npar,"columns of the Jacobian");
  vc_eqi(G.rows(),nen,"rows of gradients"); vc_eqi(G.cols(),npar,"columns of gradients");
  for (int j = 0; j < npar; j++) {
    for (int i = 0; i < nsd; i++) vc_eq(J(i+1,j+1),T[i][j],"tangent vectors are returned");
    vc_eq(G(a,j+1),D(a,j+1),"parametric derivatives are returned");
  }
}

CONTRACT(P_edge_tangent)
{
  int nsd = vc_pick("nsd",2,3), k = vc_pick("tangent",1,3);
  size_t nen = vc_size("nen",1,5);
  vc_assume(k <= nsd);
  matrix<double> X, D, J, G;
  Vec3 t;
  fill2(X,nsd,nen,"X"); fill2(D,nen,nsd,"dNdu");
  double T[3][3];
  tangents(X,D,T);
  double d = det(T,nsd), dS = utl::Jacobian(J,t,G,X,D,k);
  double s = T[0][k-1]*T[0][k-1] + T[1][k-1]*T[1][k-1] + T[2][k-1]*T[2][k-1];
  vc_eq(dS*dS,s,"curve dilation is the length of the tangent");
  vc_true(dS >= 0.0,"curve dilation is not negative");
  if (d <= epsZ && d >= -epsZ) {
    vc_eqi(G.size(),0,"no derivatives at a singular point");
    return;
  }
  vc_cover("regular edge");
  checkInverse(J,G,D,T,nsd);
}

CONTRACT(P_boundary_2D)
{
  const int nsd = 2, t1 = vc_pick("t1",1,2), t2 = 3-t1;
  size_t nen = vc_size("nen",1,5);
  matrix<double> X, D, J, G;
  Vec3 n;
  fill2(X,nsd,nen,"X"); fill2(D,nen,nsd,"dNdu");
  double T[3][3];
  tangents(X,D,T);
  double d = det(T,nsd), dS = utl::Jacobian(J,n,G,X,D,t1,t2);
  if (d <= epsZ && d >= -epsZ) {
    vc_eq(dS,0.0,"singular mapping is reported");
    vc_eqi(G.size(),0,"no derivatives at a singular point");
    return;
  }
  vc_cover("regular boundary");
  checkInverse(J,G,D,T,nsd);
}

CONTRACT(P_hessian)
{
  int nsd = vc_pick("nsd",1,3);
  size_t nen = vc_size("nen",1,4), n = 1+vc_index("n",nen);
  matrix<double> X, Ji, G;
  matrix3d<double> H, D2, R;
  fill2(X,nsd,nen,"X"); fill2(Ji,nsd,nsd,"Ji"); fill2(G,nen,nsd,"dNdX"); fill3(D2,nen,nsd,nsd,"d2Ndu2");
  for (int i = 1; i <= nsd; i++)
    for (int j = 1; j < i; j++)
      for (size_t m = 1; m <= nen; m++) D2(m,i,j) = D2(m,j,i);
  vc_true(utl::Hessian(H,R,Ji,X,D2,G,true),"compatible dimensions are accepted");
  for (int d = 1; d <= nsd; d++)
    for (int i = 1; i <= nsd; i++)
      for (int j = 1; j <= nsd; j++) {
        double s = 0.0;
        for (size_t m = 1; m <= nen; m++) s += X(d,m)*D2(m,i,j);
        vc_eq(H(d,i,j),s,"second derivatives of the mapping");
      }
  vc_eqi(R.dim(1),nen,"first dimension of the derivatives");
  vc_eqi(R.dim(2),nsd,"second dimension of the derivatives");
  vc_eqi(R.dim(3),nsd,"third dimension of the derivatives");
  for (int a = 1; a <= nsd; a++)
    for (int b = 1; b <= nsd; b++) {
      double s = 0.0;
      for (int i = 1; i <= nsd; i++)
        for (int j = 1; j <= nsd; j++) {
          double v = D2(n,i,j);
          for (int d = 1; d <= nsd; d++) v -= G(n,d)*H(d,i,j);
          s += v*Ji(i,a)*Ji(j,b);
        }
      vc_eq(R(n,a,b),s,"second order chain rule");
    }
}
