// Weak-form operators for elements with any number of basis functions.
// VC-TU: Apps/Utils/EqualOrderOperators.C src/ASM/FiniteElement.C src/LinAlg/MatVec.C src/Utility/Tensor.C src/Utility/Vec3Oper.C
// VC-TIME: 250
#include "vc.h"
#include "EqualOrderOperators.h"
#include "FiniteElement.h"
#include "Tensor.h"
#include "Vec3.h"
#include "Vec3Oper.h"
using Weak = EqualOrderOperators::Weak;
using Res = EqualOrderOperators::Residual;


namespace {
// An element with any number of basis functions, nsd = 1, 2 or 3
class Elm : public FiniteElement
{
public:
  size_t n;
  int nsd;
  Elm() : FiniteElement(0)
  {
    n = vc_size("n",1,4);
    nsd = vc_pick("nsd",1,3);
    N.resize(n); vc_fill(N.ptr(),n,"N");
    dNdX.resize(n,nsd); vc_fill(dNdX.ptr(),n*nsd,"dN");
    detJxW = vc_real("detJxW");
  }
  double lap(size_t i, size_t j) const { double e = 0.0; for (int m = 1; m <= nsd; m++) e += dNdX(i,m)*dNdX(j,m); return e; }
};
}

static void arbM(Matrix& A, size_t r, size_t c) { A.resize(r,c); vc_fill(A.ptr(),r*c,"EM"); }
static void arbVec(Vector& b, size_t n) { b.resize(n); vc_fill(b.ptr(),n,"EV"); }
static Vec3 arbV(const char* nm) { return Vec3(vc_real(nm),vc_real(nm),vc_real(nm)); }
static void arbT(Tensor& T) { std::vector<Real>& v = T; vc_fill(v.data(),v.size(),"T"); }

// form(i,k,j,l): row node i, component k, column node j, component l, at an arbitrary pair of nodes
template<class F> static void checkM(const Matrix& EM, const Matrix& E0, size_t i, size_t j, int cr, int cc, const F& form, const char* what)
{
  for (int k = 1; k <= cr; k++)
    for (int l = 1; l <= cc; l++)
      vc_eq(EM((i-1)*cr+k,(j-1)*cc+l),E0((i-1)*cr+k,(j-1)*cc+l)+form(k,l),what);
}
template<class F> static void checkV(const Vector& EV, const Vector& E0, size_t i, int c, const F& form, const char* what)
{
  for (int k = 1; k <= c; k++)
    vc_eq(EV((i-1)*c+k),E0((i-1)*c+k)+form(k),what);
}

CONTRACT(P_mass_laplacian)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n), j = 1+vc_index("j",n);
  int c = vc_pick("scalar",0,1) ? 1 : fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  Matrix E0; arbM(E0,n*c,n*c);
  Matrix E1(E0); Weak::Mass(E1,fe,s);
  checkM(E1,E0,i,j,c,c,[&](int k, int l) { return k == l ? s*w*fe.N(i)*fe.N(j) : 0.0; },"mass (u,v)");
  Matrix E2(E0); Weak::Laplacian(E2,fe,s,false);
  checkM(E2,E0,i,j,c,c,[&](int k, int l) { return k == l ? s*w*fe.lap(i,j) : 0.0; },"Laplacian (grad u, grad v)");
}

CONTRACT(P_stress)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n), j = 1+vc_index("j",n);
  int c = fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  Matrix E0; arbM(E0,n*c,n*c);
  Matrix E3(E0); Weak::Stress(E3,fe,s);
  checkM(E3,E0,i,j,c,c,[&](int k, int l) { return s*w*fe.dNdX(i,l)*fe.dNdX(j,k); },"stress (u_i,j v_j,i)");
  Matrix E4(E0); Weak::Laplacian(E4,fe,s,true);
  checkM(E4,E0,i,j,c,c,[&](int k, int l) { return s*w*((k == l ? fe.lap(i,j) : 0.0) + fe.dNdX(i,l)*fe.dNdX(j,k)); },
         "Laplacian with stress terms");
}

CONTRACT(P_laplacian_coefficient)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n), j = 1+vc_index("j",n);
  double s = vc_real("scale"), w = fe.detJxW;
  Matrix E0; arbM(E0,n,n);
  Matrix K(fe.nsd,fe.nsd); vc_fill(K.ptr(),fe.nsd*fe.nsd,"K");
  Matrix E1(E0); Weak::LaplacianCoeff(E1,K,fe,s);
  double e = 0.0, f = 0.0;
  for (int k = 1; k <= fe.nsd; k++)
    for (int l = 1; l <= fe.nsd; l++) e += fe.dNdX(i,k)*K(k,l)*fe.dNdX(j,l);
  vc_eq(E1(i,j),E0(i,j)+s*w*e,"Laplacian with matrix coefficient");
  Vec3 k3 = arbV("k");
  Matrix E2(E0); Weak::LaplacianCoeff(E2,k3,fe,s);
  for (int k = 1; k <= fe.nsd; k++) f += k3[k-1]*fe.dNdX(i,k)*fe.dNdX(j,k);
  vc_eq(E2(i,j),E0(i,j)+s*w*f,"Laplacian with diagonal coefficients");
}

CONTRACT(P_divergence_gradient)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n), j = 1+vc_index("j",n);
  int d = fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  Matrix E0; arbM(E0,n,n*d);
  Matrix E1(E0); Weak::Divergence(E1,fe,s);
  for (int k = 1; k <= d; k++)
    vc_eq(E1(j,(i-1)*d+k),E0(j,(i-1)*d+k)+s*w*fe.N(j)*fe.dNdX(i,k),"divergence (q, div u)");
  Matrix G0; arbM(G0,n*d,n);
  Matrix G1(G0); Weak::Gradient(G1,fe,s);
  for (int k = 1; k <= d; k++)
    vc_eq(G1((i-1)*d+k,j),G0((i-1)*d+k,j)-s*w*fe.N(j)*fe.dNdX(i,k),"gradient -(p, div v)");
  Vector V0; arbVec(V0,n);
  Vec3 D = arbV("D");
  Vector V1(V0); Weak::Divergence(V1,fe,D,s);
  double e = 0.0;
  for (int k = 1; k <= d; k++) e += fe.dNdX(i,k)*D[k-1];
  vc_eq(V1(i),V0(i)+s*w*e,"divergence of a vector");
}

CONTRACT(P_convection)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n), j = 1+vc_index("j",n);
  int d = fe.nsd, form = vc_pick("form",0,2);
  double s = vc_real("scale"), w = fe.detJxW;
  Vec3 U = arbV("U");
  Tensor dU(d); arbT(dU);
  Matrix E0; arbM(E0,n*d,n*d);
  Matrix E1(E0);
  const WeakOperators::ConvectionForm F[3] = { WeakOperators::CONVECTIVE, WeakOperators::CONSERVATIVE, WeakOperators::SKEWSYMMETRIC };
  Weak::Convection(E1,fe,U,dU,s,F[form]);
  const Vector& N = fe.N; const Matrix& D = fe.dNdX;
  checkM(E1,E0,i,j,d,d,[&](int k, int l) {
    double Un = 0.0, Um = 0.0;
    for (int m = 1; m <= d; m++) { Un += U[m-1]*D(j,m); Um += U[m-1]*D(i,m); }
    double conv = N(i)*N(j)*dU(k,l) + (k == l ? N(i)*Un : 0.0);
    double cons = -U[k-1]*D(i,l)*N(j) - (k == l ? Um*N(j) : 0.0);
    return s*w*(form == 0 ? conv : form == 1 ? cons : 0.5*(conv+cons));
  },"linearised convection");
}

CONTRACT(P_sources)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n);
  int d = fe.nsd, cmp = vc_pick("cmp",0,fe.nsd);
  double s = vc_real("scale"), w = fe.detJxW;
  Vector V0; arbVec(V0,n*d);
  Vector V1(V0); Weak::Source(V1,fe,s,cmp);
  checkV(V1,V0,i,d,[&](int k) { return cmp == 0 || k == cmp ? s*w*fe.N(i) : 0.0; },"source in one or all components");
  Vec3 f = arbV("f");
  Vector V2(V0); Weak::Source(V2,fe,f,s);
  checkV(V2,V0,i,d,[&](int k) { return s*w*f[k-1]*fe.N(i); },"vector source");
}

CONTRACT(P_residuals)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n);
  int d = fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  const Vector& N = fe.N; const Matrix& D = fe.dNdX;
  Tensor T(d); arbT(T);
  Vec3 A = arbV("A");
  Vector V0; arbVec(V0,n*d);
  Vector S0; arbVec(S0,n);
  Vector V1(V0); Res::Gradient(V1,fe,s);
  checkV(V1,V0,i,d,[&](int k) { return s*w*D(i,k); },"gradient residual");
  Vector S1(S0); Res::Divergence(S1,fe,T,s);
  double tr = 0.0;
  for (int k = 1; k <= d; k++) tr += T(k,k);
  vc_eq(S1(i),S0(i)-s*w*tr*N(i),"divergence residual");
  Vector S2(S0); Res::Laplacian(S2,fe,A,s);
  double e = 0.0;
  for (int k = 1; k <= d; k++) e += D(i,k)*A[k-1];
  vc_eq(S2(i),S0(i)-s*w*e,"scalar Laplacian residual");
  int stress = vc_pick("stress",0,1);
  Vector V2(V0); Res::Laplacian(V2,fe,T,s,stress);
  checkV(V2,V0,i,d,[&](int k) {
    double f = 0.0;
    for (int l = 1; l <= d; l++) f += D(i,l)*(T(k,l) + (stress ? T(l,k) : 0.0));
    return -s*w*f;
  },"vector Laplacian residual");
}

CONTRACT(P_residual_convection)
{
  Elm fe;
  size_t n = fe.n, i = 1+vc_index("i",n);
  int d = fe.nsd, form = vc_pick("form",0,2);
  double s = vc_real("scale"), w = fe.detJxW;
  const Vector& N = fe.N; const Matrix& D = fe.dNdX;
  Tensor T(d); arbT(T);
  Vec3 U = arbV("U"), UC = arbV("UC");
  Vector V0; arbVec(V0,n*d);
  const WeakOperators::ConvectionForm F[3] = { WeakOperators::CONVECTIVE, WeakOperators::CONSERVATIVE, WeakOperators::SKEWSYMMETRIC };
  Vector V1(V0); Res::Convection(V1,fe,U,T,UC,s,F[form]);
  checkV(V1,V0,i,d,[&](int k) {
    double c = 0.0, b = 0.0;
    for (int l = 1; l <= d; l++) { c -= UC[l-1]*T(k,l)*N(i); b += U[k-1]*UC[l-1]*D(i,l); }
    return s*w*(form == 0 ? c : form == 1 ? b : 0.5*(b+c));
  },"convection residual");
}
