// VC-TU: src/Utility/CoordinateMapping.C src/Utility/Vec3Oper.C src/LinAlg/MatVec.C
// VC-TIME: 90
#include "vc.h"
#include "CoordinateMapping.h"
#include "Vec3.h"
#include "Profiler.h"
#include <cmath>

Profiler* utl::profiler = nullptr;

using utl::matrix; using utl::matrix3d; using utl::matrix4d;

static void fill2(matrix<double>& A, size_t r, size_t c, const char* nm)
{
  A.resize(r,c);
  vc_fill(A.ptr(),r*c,nm);
}

static void fill3(matrix3d<double>& A, size_t a, size_t b, size_t c, const char* nm)
{
  A.resize(a,b,c);
  vc_fill(A.ptr(),a*b*c,nm);
}

//! The mapping derivatives X * dNdu, by definition
static void tangents(const matrix<double>& X, const matrix<double>& D, double T[3][3])
{
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      T[i][j] = 0.0;
  for (size_t i = 0; i < X.rows(); i++)
    for (size_t j = 0; j < D.cols(); j++)
      for (size_t a = 0; a < X.cols(); a++)
        T[i][j] += X(i+1,a+1)*D(a+1,j+1);
}

static double det(const double J[3][3], int n)
{
  if (n == 1) return J[0][0];
  if (n == 2) return J[0][0]*J[1][1] - J[0][1]*J[1][0];
  return J[0][0]*(J[1][1]*J[2][2] - J[1][2]*J[2][1])
       - J[0][1]*(J[1][0]*J[2][2] - J[1][2]*J[2][0])
       + J[0][2]*(J[1][0]*J[2][1] - J[1][1]*J[2][0]);
}

//! Nodal coordinates and basis function gradients for which the mapping derivatives are arbitrary: The first nodes have
//! unit gradients, and the last node is at the origin with arbitrary gradients (J = X*D is verified for general
//! arguments in the two-dimensional contracts and in C07).
static void element(matrix<double>& X, matrix<double>& D, int nsd, int npar)
{
  X.resize(nsd,npar+1); D.resize(npar+1,npar);
  vc_fill(X.ptr(),nsd*npar,"X");
  for (int i = 1; i <= npar; i++) D(i,i) = 1.0;
  double g[3];
  vc_fill(g,npar,"dNdu");
  for (int j = 1; j <= npar; j++) D(npar+1,j) = g[j-1];
}

CONTRACT(H_volume)
{
  int nsd = vc_pick("nsd",1,3), grad = vc_pick("gradient",0,1), gen = vc_pick("general",0,1);
  vc_assume(!gen || nsd < 3);
  int nen = gen ? nsd : nsd+1;
  matrix<double> X, D, J, G(1,1);
  G(1,1) = vc_real("old");
  if (gen) {
    fill2(X,nsd,nen,"X"); fill2(D,nen,nsd,"dNdu");
  }
  else
    element(X,D,nsd,nsd);
  double T[3][3];
  tangents(X,D,T);
  double d = det(T,nsd), dJ = utl::Jacobian(J,G,X,D,grad);
  if (d <= epsZ && d >= -epsZ) {
    vc_cover("singular mapping");
    vc_eq(dJ,0.0,"singular mapping is reported");
    if (grad) vc_eqi(G.size(),0,"no derivatives at a singular point");
    else vc_eqi(G.size(),1,"derivatives are left alone");
    return;
  }
  vc_cover("regular mapping");
  vc_eq(dJ,d,"Jacobian determinant");
  vc_eqi(J.rows(),nsd,"rows of inverse"); vc_eqi(J.cols(),nsd,"columns of inverse");
  for (int i = 0; i < nsd; i++)
    for (int j = 0; j < nsd; j++) {
      double s = 0.0;
      for (int k = 0; k < nsd; k++) s += J(i+1,k+1)*T[k][j];
      vc_eq(s,i == j ? 1.0 : 0.0,"inverse of the Jacobian");
    }
  if (!grad) { vc_eqi(G.size(),1,"derivatives are left alone"); return; }
  vc_eqi(G.rows(),nen,"rows of gradients"); vc_eqi(G.cols(),nsd,"columns of gradients");
  for (int a = 1; a <= nen; a++)
    for (int j = 0; j < nsd; j++) {
      double s = 0.0;
      for (int k = 0; k < nsd; k++) s += G(a,k+1)*T[k][j];
      vc_eq(s,D(a,j+1),"chain rule");
    }
}

CONTRACT(H_curve_and_surface)
{
  int nsd = vc_pick("nsd",2,3), npar = vc_pick("npar",1,2), nen = vc_pick("nen",1,3);
  vc_assume(npar < nsd);
  matrix<double> X, D, J, G;
  fill2(X,nsd,nen,"X"); fill2(D,nen,npar,"dNdu");
  double T[3][3];
  tangents(X,D,T);
  double dJ = utl::Jacobian(J,G,X,D), s;
  if (npar == 1)
    s = T[0][0]*T[0][0] + T[1][0]*T[1][0] + T[2][0]*T[2][0];
  else {
    double a = T[1][0]*T[2][1] - T[2][0]*T[1][1], b = T[2][0]*T[0][1] - T[0][0]*T[2][1],
           c = T[0][0]*T[1][1] - T[1][0]*T[0][1];
    s = a*a + b*b + c*c;
  }
  vc_eq(dJ*dJ,s,"length or area of the tangents");
  vc_true(dJ >= 0.0,"dilation is not negative");
  vc_eqi(J.rows(),nsd,"rows of the Jacobian"); vc_eqi(J.cols(),npar,"columns of the Jacobian");
  vc_eqi(G.rows(),nen,"rows of gradients"); vc_eqi(G.cols(),npar,"columns of gradients");
  for (int j = 0; j < npar; j++) {
    for (int i = 0; i < nsd; i++) vc_eq(J(i+1,j+1),T[i][j],"tangent vectors are returned");
    for (int a = 1; a <= nen; a++) vc_eq(G(a,j+1),D(a,j+1),"parametric derivatives are returned");
  }
}

static void checkInverse(const matrix<double>& J, const matrix<double>& G, const matrix<double>& D,
                         const double T[3][3], int nsd, bool inv = true)
{
  vc_eqi(J.rows(),nsd,"rows of inverse"); vc_eqi(J.cols(),nsd,"columns of inverse");
  if (inv)
  for (int i = 0; i < nsd; i++)
    for (int j = 0; j < nsd; j++) {
      double s = 0.0;
      for (int k = 0; k < nsd; k++) s += J(i+1,k+1)*T[k][j];
      vc_eq(s,i == j ? 1.0 : 0.0,"inverse of the Jacobian");
    }
  vc_eqi(G.rows(),D.rows(),"rows of gradients"); vc_eqi(G.cols(),nsd,"columns of gradients");
  for (size_t a = 1; a <= D.rows(); a++)
    for (int j = 0; j < nsd; j++) {
      double s = 0.0;
      for (int k = 0; k < nsd; k++) s += G(a,k+1)*T[k][j];
      vc_eq(s,D(a,j+1),"chain rule");
    }
}

CONTRACT(H_edge_tangent)
{
  int nsd = vc_pick("nsd",2,3), k = vc_pick("tangent",1,3);
  vc_assume(k <= nsd);
  matrix<double> X, D, J, G;
  Vec3 t;
  element(X,D,nsd,nsd);
  double T[3][3];
  tangents(X,D,T);
  double d = det(T,nsd), dS = utl::Jacobian(J,t,G,X,D,k);
  double s = T[0][k-1]*T[0][k-1] + T[1][k-1]*T[1][k-1] + T[2][k-1]*T[2][k-1];
  vc_eq(dS*dS,s,"curve dilation is the length of the tangent");
  vc_true(dS >= 0.0,"curve dilation is not negative");
  if (dS > epsZ)
    for (int i = 0; i < 3; i++) vc_eq(t[i]*dS,T[i][k-1],"unit tangent");
  if (d <= epsZ && d >= -epsZ) {
    vc_eqi(G.size(),0,"no derivatives at a singular point");
    return;
  }
  vc_cover("regular edge");
  checkInverse(J,G,D,T,nsd);
}

CONTRACT(H_boundary_2D)
{
  int t1 = vc_pick("t1",1,2), t2 = 3-t1;
  matrix<double> X, D, J, G;
  Vec3 n;
  element(X,D,2,2);
  double T[3][3];
  tangents(X,D,T);
  double d = det(T,2);
  double dS = utl::Jacobian(J,n,G,X,D,t1,t2);
  if (d <= epsZ && d >= -epsZ) {
    vc_eq(dS,0.0,"singular mapping is reported");
    vc_eqi(G.size(),0,"no derivatives at a singular point");
    return;
  }
  double s = T[0][t2-1]*T[0][t2-1] + T[1][t2-1]*T[1][t2-1];
  vc_eq(dS*dS,s,"curve dilation is the length of the edge tangent");
  vc_true(dS >= 0.0,"curve dilation is not negative");
  checkInverse(J,G,D,T,2);
  if (!(dS > 1.0e-8)) return;
  vc_cover("regular edge normal");
  vc_eq(n.z,0.0,"normal is in the plane");
  vc_eq(n.x*T[0][t2-1] + n.y*T[1][t2-1],0.0,"normal is orthogonal to the edge");
  vc_eq((n.x*T[0][t1-1] + n.y*T[1][t1-1])*dS,d > 0.0 ? d : -d,"normal is a unit vector pointing along the first direction");
}

CONTRACT(H_boundary_3D)
{
  int k = vc_pick("face",1,3), t1 = 1+k%3, t2 = 1+(k+1)%3;
  if (vc_pick("flip",0,1)) { int t = t1; t1 = t2; t2 = t; }
  matrix<double> X, D, J, G;
  Vec3 n;
  element(X,D,3,3);
  double T[3][3];
  tangents(X,D,T);
  double d = det(T,3), c[3];
  double dS = utl::Jacobian(J,n,G,X,D,t1,t2);
  if (d <= epsZ && d >= -epsZ) {
    vc_eq(dS,0.0,"singular mapping is reported");
    vc_eqi(G.size(),0,"no derivatives at a singular point");
    return;
  }
  vc_cover("regular face normal");
  for (int i = 0; i < 3; i++)
    c[i] = T[(i+1)%3][t1-1]*T[(i+2)%3][t2-1] - T[(i+2)%3][t1-1]*T[(i+1)%3][t2-1];
  vc_eq(dS*dS,c[0]*c[0]+c[1]*c[1]+c[2]*c[2],"surface dilation is the area of the tangents");
  vc_true(dS >= 0.0,"surface dilation is not negative");
  if (dS > epsZ)
    for (int i = 0; i < 3; i++) vc_eq(n[i]*dS,c[i],"unit normal along the cross product of the tangents");
  checkInverse(J,G,D,T,3);
}

CONTRACT(H_boundary_shell)
{
  int t1 = vc_pick("t1",1,2), t2 = 3-t1, nen = 3;
  matrix<double> X, D, J, G;
  Vec3 n;
  element(X,D,3,2);
  double T[3][3], s = 0.0, u = 0.0, w = 0.0;
  tangents(X,D,T);
  double dS = utl::Jacobian(J,n,G,X,D,t1,t2);
  for (int i = 0; i < 3; i++) {
    s += T[i][t2-1]*T[i][t2-1];
    u += n[i]*T[i][t2-1];
    w += n[i]*T[i][t1-1];
  }
  vc_eq(dS*dS,s,"curve dilation is the length of the edge tangent");
  vc_eqi(G.rows(),nen,"rows of gradients"); vc_eqi(G.cols(),2,"columns of gradients");
  for (int a = 1; a <= nen; a++)
    for (int j = 1; j <= 2; j++) vc_eq(G(a,j),D(a,j),"parametric derivatives are returned");
  for (int i = 1; i <= 3; i++)
    for (int j = 1; j <= 2; j++) vc_eq(J(i,j),T[i-1][j-1],"tangent vectors are returned");
  double c[3];
  for (int i = 0; i < 3; i++)
    c[i] = T[(i+1)%3][t1-1]*T[(i+2)%3][t2-1] - T[(i+2)%3][t1-1]*T[(i+1)%3][t2-1];
  double A = c[0]*c[0]+c[1]*c[1]+c[2]*c[2];
  if (s < 1.0e-8 || A < 1.0e-8) return;
  vc_cover("regular shell edge");
  vc_eq(u,0.0,"normal is orthogonal to the edge");
  vc_true(w > 0.0,"normal points along the first direction");
}

CONTRACT(H_hessian)
{
  int nsd = vc_pick("nsd",1,3), nen = vc_pick("nen",1,2), geo = vc_pick("geo",0,1), old = vc_pick("old",0,1);
  matrix<double> X, Ji, G;
  matrix3d<double> H, D2, R;
  fill2(X,nsd,nen,"X"); fill2(Ji,nsd,nsd,"Ji"); fill2(G,nen,nsd,"dNdX"); fill3(D2,nen,nsd,nsd,"d2Ndu2");
  for (int n = 1; n <= nen; n++)
    for (int i = 1; i <= nsd; i++)
      for (int j = 1; j < i; j++) D2(n,j,i) = D2(n,i,j);
  if (!geo) {
    fill3(H,nsd,nsd,nsd,"H");
    for (int n = 1; n <= nsd; n++)
      for (int i = 1; i <= nsd; i++)
        for (int j = 1; j < i; j++) H(n,j,i) = H(n,i,j);
  }
  if (old) fill3(R,nen,nsd,nsd,"R");
  vc_true(utl::Hessian(H,R,Ji,X,D2,G,geo),"compatible dimensions are accepted");
  vc_eqi(H.dim(1),nsd,"first dimension of the Hessian");
  vc_eqi(H.dim(2),nsd,"second dimension of the Hessian");
  vc_eqi(H.dim(3),nsd,"third dimension of the Hessian");
  if (geo)
    for (int d = 1; d <= nsd; d++)
      for (int i = 1; i <= nsd; i++)
        for (int j = 1; j <= nsd; j++) {
          double s = 0.0;
          for (int n = 1; n <= nen; n++) s += X(d,n)*D2(n,i,j);
          vc_eq(H(d,i,j),s,"second derivatives of the mapping");
        }
  vc_eqi(R.dim(1),nen,"first dimension of the derivatives");
  vc_eqi(R.dim(2),nsd,"second dimension of the derivatives");
  vc_eqi(R.dim(3),nsd,"third dimension of the derivatives");
  // N,ab = sum_ij (N,ij - sum_d N,d X_d,ij) u_i,a u_j,b
  for (int n = 1; n <= nen; n++)
    for (int a = 1; a <= nsd; a++)
      for (int b = 1; b <= nsd; b++) {
        double s = 0.0;
        for (int i = 1; i <= nsd; i++)
          for (int j = 1; j <= nsd; j++) {
            double v = D2(n,i,j);
            for (int d = 1; d <= nsd; d++) v -= G(n,d)*H(d,i,j);
            s += v*Ji(i,a)*Ji(j,b);
          }
        vc_eq(R(n,a,b),s,"second order chain rule");
      }
}

CONTRACT(H_hessian_special)
{
  int nsd = vc_pick("nsd",2,3), npar = vc_pick("npar",1,3), nen = vc_pick("nen",1,2), kind = vc_pick("kind",0,2);
  vc_assume(npar < nsd);
  matrix<double> X, J, G;
  matrix3d<double> H, D2, R(1,1,1);
  fill2(X,nsd,nen,"X"); fill3(D2,kind == 2 ? nen+1 : nen,npar,npar,"d2Ndu2");
  if (kind != 1) fill2(G,nen,npar,"dNdX");
  fill2(J,nsd,npar,"J");
  bool ok = utl::Hessian(H,R,J,X,D2,G);
  if (kind == 2) { vc_true(!ok,"incompatible dimensions are refused"); return; }
  vc_true(ok,"compatible dimensions are accepted");
  if (kind == 1) { vc_eqi(R.size(),0,"no derivatives at a singular point"); return; }
  vc_eqi(R.dim(1),nen,"first dimension of the derivatives");
  vc_eqi(R.dim(2),npar,"second dimension of the derivatives");
  vc_eqi(R.dim(3),npar,"third dimension of the derivatives");
  for (int n = 1; n <= nen; n++)
    for (int i = 1; i <= npar; i++)
      for (int j = 1; j <= npar; j++)
        vc_eq(R(n,i,j),D2(n,i,j),"parametric derivatives are returned");
}

CONTRACT(H_hessian_flat)
{
  int n = vc_pick("n",1,3), m = vc_pick("m",1,3), k = vc_pick("k",1,3), old = vc_pick("old",0,1);
  matrix3d<double> H;
  matrix<double> V;
  fill3(H,m,n,k,"H");
  if (old) fill2(V,2,3,"V");
  utl::Hessian(H,V);
  if (n != k) { vc_eqi(V.size(),0,"nothing for a non-square Hessian"); return; }
  vc_eqi(V.rows(),m,"rows of the flat Hessian"); vc_eqi(V.cols(),n*(n+1)/2,"columns of the flat Hessian");
  int c = 0;
  for (int i = 1; i <= n; i++)
    for (int d = (++c, 1); d <= m; d++) vc_eq(V(d,c),H(d,i,i),"diagonal terms first");
  for (int i = 1; i <= n; i++)
    for (int j = i+1; j <= n; j++)
      for (int d = (++c, 1); d <= m; d++) vc_eq(V(d,c),H(d,i,j),"then the terms above the diagonal");
}

CONTRACT(H_third_derivatives)
{
  // For an affine mapping, the third derivatives transform as a third-order tensor
  int nsd = vc_pick("nsd",1,2), nen = vc_pick("nen",1,2), old = vc_pick("old",0,1);
  matrix<double> Ji;
  matrix4d<double> D, R;
  fill2(Ji,nsd,nsd,"Ji");
  D.resize(nen,nsd,nsd,nsd);
  for (int n = 1; n <= nen; n++) {
    double d[4];
    vc_fill(d,4,"d3");
    for (int i = 1; i <= nsd; i++)
      for (int j = 1; j <= nsd; j++)
        for (int k = 1; k <= nsd; k++) D(n,i,j,k) = d[i+j+k-3];
  }
  if (old) { R.resize(nen,nsd,nsd,nsd); vc_fill(R.ptr(),nen*nsd*nsd*nsd,"R"); }
  vc_true(utl::Hessian2(R,Ji,D),"compatible dimensions are accepted");
  vc_eqi(R.dim(1),nen,"first dimension"); vc_eqi(R.dim(2),nsd,"second dimension");
  vc_eqi(R.dim(3),nsd,"third dimension"); vc_eqi(R.dim(4),nsd,"fourth dimension");
  for (int n = 1; n <= nen; n++)
    for (int a = 1; a <= nsd; a++)
      for (int b = 1; b <= nsd; b++)
        for (int c = 1; c <= nsd; c++) {
          double s = 0.0;
          for (int i = 1; i <= nsd; i++)
            for (int j = 1; j <= nsd; j++)
              for (int k = 1; k <= nsd; k++) s += D(n,i,j,k)*Ji(i,a)*Ji(j,b)*Ji(k,c);
          vc_eq(R(n,a,b,c),s,"third derivatives");
        }
}

CONTRACT(H_third_derivatives_special)
{
  int nsd = vc_pick("rows",1,3), npar = vc_pick("cols",1,3);
  vc_assume(nsd != npar || nsd == 3);
  matrix<double> Ji;
  matrix4d<double> D, R;
  fill2(Ji,nsd,npar,"Ji");
  D.resize(2,npar,npar,npar);
  vc_fill(D.ptr(),2*npar*npar*npar,"D");
  bool ok = utl::Hessian2(R,Ji,D);
  if (npar >= nsd) { vc_true(!ok,"incompatible dimensions are refused"); return; }
  vc_true(ok,"curves and surfaces keep the parametric derivatives");
  for (int i = 0; i < 2*npar*npar*npar; i++) vc_eq(R.ptr()[i],D.ptr()[i],"parametric derivatives are returned");
}

CONTRACT(H_jacobian_gradient)
{
  int n = vc_pick("dim",1,3), old = vc_pick("old",0,3);
  matrix<double> Ji;
  matrix3d<double> H;
  fill2(Ji,n,n,"dudX"); fill3(H,n,n,n,"d2Xdu2");
  std::vector<matrix<double>> R(old);
  for (int i = 0; i < old; i++) fill2(R[i],n,n,"old");
  utl::JacobianGradient(Ji,H,R);
  vc_eqi(R.size(),n,"one matrix for each direction");
  for (int c = 1; c <= n; c++) {
    vc_eqi(R[c-1].rows(),n,"rows"); vc_eqi(R[c-1].cols(),n,"columns");
    for (int i = 1; i <= n; i++)
      for (int j = 1; j <= n; j++) {
        double s = 0.0;
        for (int k = 1; k <= n; k++) s += H(i,k,j)*Ji(k,c);
        vc_eq(R[c-1](i,j),s,"derivative of the Jacobian");
      }
  }
}

CONTRACT(H_determinant_gradient)
{
  int n = vc_pick("dim",2,3), old = vc_pick("old",0,3);
  matrix<double> J, Ji;
  matrix3d<double> H;
  fill2(J,n,n,"J"); fill2(Ji,n,n,"Ji"); fill3(H,n,n,n,"H");
  std::vector<double> R(old);
  vc_fill(R.data(),old,"old");
  utl::detJacGradient(J,Ji,H,R);
  vc_eqi(R.size(),n,"one derivative for each direction");
  // d(det J)/du_k: replace one row at a time by its derivative
  double dd[3] = {0.0,0.0,0.0};
  for (int k = 0; k < n; k++)
    for (int r = 0; r < n; r++) {
      double M[3][3];
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          M[i][j] = i == r ? H(i+1,j+1,k+1) : J(i+1,j+1);
      dd[k] += det(M,n);
    }
  for (int c = 0; c < n; c++) {
    double s = 0.0;
    for (int k = 0; k < n; k++) s += dd[k]*Ji(k+1,c+1);
    vc_eq(R[c],s,"derivative of the determinant");
  }
}

CONTRACT(H_metric)
{
  int nsd = vc_pick("nsd",1,3), old = vc_pick("old",0,1);
  matrix<double> Ji, G;
  fill2(Ji,nsd,nsd,"Ji");
  if (old) fill2(G,nsd,nsd,"G");
  double h = vc_real("h"), du[3] = {h,h,h};
  vc_assume(h > 0.0);
  utl::getGmat(Ji,du,G);
  vc_eqi(G.rows(),nsd,"rows of the metric"); vc_eqi(G.cols(),nsd,"columns of the metric");
  double f = nsd == 1 ? 2.0 : (nsd == 2 ? 4.0 : 8.0);
  for (int i = 1; i <= nsd; i++)
    for (int j = 1; j <= nsd; j++) {
      double s = 0.0;
      for (int k = 1; k <= nsd; k++) s += Ji(k,i)*Ji(k,j);
      vc_eq(G(i,j)*h*h,f*s,"metric of the inverse mapping");
    }
}
