// Mixed elements with any number of basis functions and nodes: the loops over them are decided by induction.
// VC-TU: src/ASM/FiniteElement.C src/Utility/CoordinateMapping.C src/LinAlg/MatVec.C src/Utility/Tensor.C src/Utility/Vec3Oper.C
// VC-TIME: 150
#include "vc.h"
#include "FiniteElement.h"
#include "BasisFunctionVals.h"
#include "CoordinateMapping.h"
#include "Tensor.h"
#include "Vec3.h"
#include "Profiler.h"

Profiler* utl::profiler = nullptr;

static void fill2(Matrix& A, size_t r, size_t c, const char* nm)
{
  A.resize(r,c);
  vc_fill(A.ptr(),r*c,nm);
}

static void fill3(Matrix3D& A, size_t a, size_t b, const char* nm)
{
  A.resize(a,b,b);
  vc_fill(A.ptr(),a*b*b,nm);
  for (size_t i = 1; i <= b; i++)
    for (size_t j = 1; j < i; j++)
      for (size_t n = 1; n <= a; n++) A(n,j,i) = A(n,i,j);
}

static void tangents(const Matrix& X, const Matrix& D, double T[3][3])
{
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      T[i][j] = 0.0;
  for (size_t i = 0; i < X.rows(); i++)
    for (size_t j = 0; j < D.cols(); j++) {
      double s = 0.0;
      for (size_t a = 0; a < X.cols(); a++)
        s += X(i+1,a+1)*D(a+1,j+1);
      T[i][j] = s;
    }
}

static double det(const double J[3][3], int n)
{
  if (n == 1) return J[0][0];
  if (n == 2) return J[0][0]*J[1][1] - J[0][1]*J[1][0];
  return J[0][0]*(J[1][1]*J[2][2] - J[1][2]*J[2][1])
       - J[0][1]*(J[1][0]*J[2][2] - J[1][2]*J[2][0])
       + J[0][2]*(J[1][0]*J[2][1] - J[1][1]*J[2][0]);
}


//! Any number of columns, the sums over them are loops
static void checkGrad(const Matrix& G, const Matrix& D, const double T[3][3], int nsd, const char* what)
{
  vc_eqi(G.rows(),D.rows(),"one gradient for each function");
  vc_eqi(G.cols(),nsd,"one gradient component for each direction");
  size_t a = 1+vc_index("a",D.rows());
  for (int j = 0; j < nsd; j++) {
    double s = 0.0;
    for (int k = 0; k < nsd; k++) s += G(a,k+1)*T[k][j];
    vc_eq(s,D(a,j+1),what);
  }
}

static void checkInv(const Matrix& J, const double T[3][3], int nsd)
{
  vc_eqi(J.rows(),nsd,"rows of inverse"); vc_eqi(J.cols(),nsd,"columns of inverse");
  for (int i = 0; i < nsd; i++)
    for (int j = 0; j < nsd; j++) {
      double s = 0.0;
      for (int k = 0; k < nsd; k++) s += J(i+1,k+1)*T[k][j];
      vc_eq(s,i == j ? 1.0 : 0.0,"inverse of the mapping derivatives");
    }
}

//! Bases with any number of functions each
static void bases(BasisValues& bfs, std::vector<size_t>& n, Matrix& X, int nsd, int nb, int sep, int gb)
{
  for (int b = 1; b <= nb+sep; b++) {
    size_t m = vc_size("functions",1,2);
    fill2(bfs[b-1].dNdu,m,nsd,"dNdu");
    if (b == gb) fill2(X,nsd,m,"X");
    if (b <= nb) n[b-1] = m;
  }
}

CONTRACT(P_mapping)
{
  int nsd = vc_pick("nsd",1,3), nb = vc_pick("bases",1,3), sep = vc_pick("separate",0,1), g = vc_pick("geo",1,3);
  vc_assume(g <= nb && !(sep && g > 1));
  std::vector<size_t> n(nb);
  BasisValues bfs(nb+sep);
  Matrix X, J;
  int gb = sep ? nb+1 : g; // the basis that defines the geometry
  bases(bfs,n,X,nsd,nb,sep,gb);
  MxFiniteElement fe(n);
  double T[3][3];
  tangents(X,bfs[gb-1].dNdu,T);
  double d = det(T,nsd);
  bool ok = fe.Jacobian(J,X,g,bfs);
  if (d <= epsZ && d >= -epsZ) {
    vc_cover("singular point");
    vc_true(!ok,"singular point is reported");
    vc_eq(fe.detJxW,0.0,"no volume at a singular point");
    return;
  }
  vc_cover("regular point");
  vc_true(ok,"regular point");
  vc_eq(fe.detJxW,d,"Jacobian determinant of the geometry mapping");
  checkInv(J,T,nsd);
  for (int b = 1; b <= nb; b++)
    checkGrad(fe.grad(b),bfs[b-1].dNdu,T,nsd,"chain rule, all bases use the geometry mapping");
}

CONTRACT(P_boundary_2D)
{
  int nb = vc_pick("bases",1,3), sep = vc_pick("separate",0,1), g = vc_pick("geo",1,3), t1 = vc_pick("t1",1,2), t2 = 3-t1;
  vc_assume(g <= nb && !(sep && g > 1));
  std::vector<size_t> n(nb);
  BasisValues bfs(nb+sep);
  Matrix X, J;
  Vec3 v;
  int gb = sep ? nb+1 : g;
  bases(bfs,n,X,2,nb,sep,gb);
  MxFiniteElement fe(n);
  double T[3][3];
  tangents(X,bfs[gb-1].dNdu,T);
  double d = det(T,2);
  vc_assume(!(d <= epsZ && d >= -epsZ));
  bool ok = fe.Jacobian(J,v,X,g,bfs,t1,t2);
  vc_true(ok == (fe.detJxW != 0.0),"status tells whether there is any boundary dilation");
  checkInv(J,T,2);
  for (int b = 1; b <= nb; b++)
    checkGrad(fe.grad(b),bfs[b-1].dNdu,T,2,"chain rule on the boundary");
  vc_cover("boundary point");
}

CONTRACT(P_hessian)
{
  int nsd = vc_pick("nsd",1,3), nb = vc_pick("bases",1,3), sep = vc_pick("separate",0,1), g = vc_pick("geo",1,3);
  vc_assume(g <= nb && !(sep && g > 1) && !(nsd == 3 && nb == 3));
  BasisValues bfs(nb+sep);
  Matrix X, Ji;
  fill2(Ji,nsd,nsd,"Ji");
  std::vector<size_t> n(nb);
  int gb = sep ? nb+1 : g;
  for (int b = 1; b <= nb+sep; b++) {
    size_t m = vc_size("functions",1,2);
    if (b <= nb) n[b-1] = m;
    if (b == gb) fill2(X,nsd,m,"X");
    fill3(bfs[b-1].d2Ndu2,m,nsd,"d2Ndu2");
  }
  MxFiniteElement fe(n);
  for (int b = 1; b <= nb; b++) fill2(fe.grad(b),n[b-1],nsd,"dNdX");
  Matrix3D H;
  vc_true(fe.Hessian(H,Ji,X,g,bfs),"compatible dimensions are accepted");
  vc_eqi(H.dim(1),nsd,"first dimension of the Hessian");
  vc_eqi(H.dim(2),nsd,"second dimension of the Hessian");
  vc_eqi(H.dim(3),nsd,"third dimension of the Hessian");
  for (int d = 1; d <= nsd; d++)
    for (int i = 1; i <= nsd; i++)
      for (int j = 1; j <= nsd; j++) {
        double s = 0.0;
        for (size_t a = 1; a <= X.cols(); a++) s += X(d,a)*bfs[gb-1].d2Ndu2(a,i,j);
        vc_eq(H(d,i,j),s,"second derivatives of the geometry mapping");
      }
  for (int b = 1; b <= nb; b++) {
    const Matrix3D& R = fe.hess(b);
    vc_eqi(R.dim(1),n[b-1],"first dimension of the derivatives");
    vc_eqi(R.dim(2),nsd,"second dimension of the derivatives");
    vc_eqi(R.dim(3),nsd,"third dimension of the derivatives");
    size_t a = 1+vc_index("a",n[b-1]);
    for (int p = 1; p <= nsd; p++)
      for (int q = 1; q <= nsd; q++) {
        double s = 0.0;
        for (int i = 1; i <= nsd; i++)
          for (int j = 1; j <= nsd; j++) {
            double v = bfs[b-1].d2Ndu2(a,i,j);
            for (int d = 1; d <= nsd; d++) v -= fe.grad(b)(a,d)*H(d,i,j);
            s += v*Ji(i,p)*Ji(j,q);
          }
        vc_eq(R(a,p,q),s,"second order chain rule, all bases use the geometry mapping");
      }
  }
}

//! Coordinates and geometry gradients giving an arbitrary Jacobian: node i has unit gradient in direction i
static void geometry(Matrix& X, Matrix& D, int nsd, const char* nm)
{
  fill2(X,nsd,nsd,nm);
  D.resize(nsd,nsd);
  for (int i = 1; i <= nsd; i++) D(i,i) = 1.0;
}

// The contravariant Piola mapping P = J N/det(J), and its derivatives with respect to the Cartesian coordinates
CONTRACT(P_piola)
{
  int nsd = vc_pick("nsd",2,3), twice = vc_pick("twice",0,1);
  BasisValues bfs(nsd+2);
  std::vector<size_t> n(nsd+1);
  for (int b = 1; b <= nsd+1; b++) {
    n[b-1] = vc_size("functions",1,2);
    fill2(bfs[b-1].dNdu,n[b-1],nsd,"dNdu");
  }
  Matrix X, Ji;
  geometry(X,bfs[nsd+1].dNdu,nsd,"X");
  fill3(bfs[nsd+1].d2Ndu2,nsd,nsd,"d2Ndu2");
  fill2(Ji,nsd,nsd,"Ji");
  MxFiniteElement fe(n);
  for (int b = 1; b <= nsd+1; b++) vc_fill(fe.basis(b).ptr(),n[b-1],"N");
  double detJ = vc_real_range("detJ",0.01,100.0), T[3][3];
  tangents(X,bfs[nsd+1].dNdu,T);
  if (twice) { // a second integration point
    fe.P.resize(nsd,2,true); fe.dPdX.resize(nsd*nsd,2,true);
    fe.P(1,1) = vc_real("oldP"); fe.dPdX(2,1) = vc_real("olddP");
  }
  fe.piolaMapping(detJ,Ji,X,bfs);

  // Derivatives of the mapping: H(i,k,l) = d2X_i/du_k du_l, and of its determinant
  double H[3][3][3], dJ[3][3][3], dd[3];
  for (int i = 0; i < nsd; i++)
    for (int k = 0; k < nsd; k++)
      for (int l = 0; l < nsd; l++) {
        H[i][k][l] = 0.0;
        for (int a = 1; a <= nsd; a++) H[i][k][l] += X(i+1,a)*bfs[nsd+1].d2Ndu2(a,k+1,l+1);
      }
  double du[3] = {0.0,0.0,0.0};
  for (int k = 0; k < nsd; k++)
    for (int r = 0; r < nsd; r++) {
      double M[3][3];
      for (int i = 0; i < nsd; i++)
        for (int j = 0; j < nsd; j++)
          M[i][j] = i == r ? H[i][j][k] : T[i][j];
      du[k] += det(M,nsd);
    }
  for (int d = 0; d < nsd; d++) {
    dd[d] = 0.0;
    for (int k = 0; k < nsd; k++) dd[d] += du[k]*Ji(k+1,d+1);
    for (int i = 0; i < nsd; i++)
      for (int j = 0; j < nsd; j++) {
        dJ[d][i][j] = 0.0;
        for (int k = 0; k < nsd; k++) dJ[d][i][j] += H[i][j][k]*Ji(k+1,d+1);
      }
  }

  size_t np = 0;
  for (int b = 0; b < nsd; b++) np += n[b];
  vc_eqi(fe.P.rows(),nsd,"vector-valued functions"); vc_eqi(fe.P.cols(),np,"one for each velocity function");
  vc_eqi(fe.dPdX.rows(),nsd*nsd,"gradients"); vc_eqi(fe.dPdX.cols(),np,"one for each velocity function");
  size_t c = 0;
  for (int b = 1; b <= nsd; b++) {
    size_t a = vc_index("a",n[b-1]);
    double N = fe.basis(b)(a+1);
    for (int i = 0; i < nsd; i++)
      vc_eq(fe.P(i+1,c+a+1)*detJ,T[i][b-1]*N,"contravariant Piola mapping");
    for (int d = 0; d < nsd; d++) {
      double g = 0.0;
      for (int k = 0; k < nsd; k++) g += bfs[b-1].dNdu(a+1,k+1)*Ji(k+1,d+1);
      for (int i = 0; i < nsd; i++)
        vc_eq(fe.dPdX(d*nsd+i+1,c+a+1)*detJ*detJ,detJ*dJ[d][i][b-1]*N - dd[d]*T[i][b-1]*N + detJ*T[i][b-1]*g,
              "derivative of the Piola mapping");
    }
    c += n[b-1];
  }
}
