// VC-TU: Apps/Utils/EqualOrderOperators.C src/ASM/FiniteElement.C src/LinAlg/MatVec.C src/Utility/Tensor.C src/Utility/Vec3Oper.C
// VC-TIME: 250
#include "vc.h"
#include "EqualOrderOperators.h"
#include "FiniteElement.h"
#include "Tensor.h"
#include "Vec3.h"
#include "Vec3Oper.h"
#include <functional>
using Weak = EqualOrderOperators::Weak;
using Res = EqualOrderOperators::Residual;

namespace {
// A finite element with two bases and arbitrary values at an integration point
class Elm : public FiniteElement
{
  Vector N2; Matrix D2;
public:
  int nsd, n[3];
  Elm(int ns, int n1, int n2) : FiniteElement(n1), N2(n2), nsd(ns)
  {
    n[1] = n1; n[2] = n2;
    dNdX.resize(n1,nsd); D2.resize(n2,nsd);
    vc_fill(N.ptr(),n1,"N"); vc_fill(N2.ptr(),n2,"M");
    vc_fill(dNdX.ptr(),n1*nsd,"dN"); vc_fill(D2.ptr(),n2*nsd,"dM");
    detJxW = vc_real("detJxW");
  }
  size_t getNoBasis() const override { return 2; }
  const Vector& basis(char b) const override { return b < 2 ? N : N2; }
  Vector& basis(char b) override { return b < 2 ? N : N2; }
  const Matrix& grad(char b) const override { return b < 2 ? dNdX : D2; }
  Matrix& grad(char b) override { return b < 2 ? dNdX : D2; }
};
}

static Elm element()
{
  int nsd = vc_pick("nsd",1,3), n1 = vc_pick("n1",1,2);
  return Elm(nsd,n1,3-n1);
}
static Vec3 arbV(const char* nm) { return Vec3(vc_real(nm),vc_real(nm),vc_real(nm)); }
static void arbT(Tensor& T) { std::vector<Real>& v = T; vc_fill(v.data(),v.size(),"T"); }

// form(i,k,j,l): row node i, component k, column node j, component l
static void checkM(const Matrix& EM, const Matrix& E0, int nr, int cr, int nc, int cc,
                   const std::function<double(int,int,int,int)>& form, const char* what)
{
  for (int i = 1; i <= nr; i++)
    for (int k = 1; k <= cr; k++)
      for (int j = 1; j <= nc; j++)
        for (int l = 1; l <= cc; l++)
          vc_eq(EM((i-1)*cr+k,(j-1)*cc+l),E0((i-1)*cr+k,(j-1)*cc+l)+form(i,k,j,l),what);
}
static void checkV(const Vector& EV, const Vector& E0, int n, int c, const std::function<double(int,int)>& form, const char* what)
{
  for (int i = 1; i <= n; i++)
    for (int k = 1; k <= c; k++)
      vc_eq(EV((i-1)*c+k),E0((i-1)*c+k)+form(i,k),what);
}
static void arbM(Matrix& A, int r, int c) { A.resize(r,c); vc_fill(A.ptr(),r*c,"EM"); }
static void arbVec(Vector& b, int n) { b.resize(n); vc_fill(b.ptr(),n,"EV"); }

CONTRACT(H_mass_laplacian_stress)
{
  Elm fe = element();
  int b = vc_pick("basis",1,2), n = fe.n[b], c = vc_pick("scalar",0,1) ? 1 : fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  const Vector& N = fe.basis(b); const Matrix& D = fe.grad(b);
  auto lap = [&](int i, int j) { double e = 0.0; for (int m = 1; m <= fe.nsd; m++) e += D(i,m)*D(j,m); return e; };
  Matrix E0; arbM(E0,n*c,n*c);
  Matrix E1(E0); Weak::Mass(E1,fe,s,b);
  checkM(E1,E0,n,c,n,c,[&](int i, int k, int j, int l) { return k == l ? s*w*N(i)*N(j) : 0.0; },"mass (u,v)");
  Matrix E2(E0); Weak::Laplacian(E2,fe,s,false,b);
  checkM(E2,E0,n,c,n,c,[&](int i, int k, int j, int l) { return k == l ? s*w*lap(i,j) : 0.0; },"Laplacian (grad u, grad v)");
  if (c == fe.nsd) {
    Matrix E3(E0); Weak::Stress(E3,fe,s,b);
    checkM(E3,E0,n,c,n,c,[&](int i, int k, int j, int l) { return s*w*D(i,l)*D(j,k); },"stress (u_i,j v_j,i)");
    Matrix E4(E0); Weak::Laplacian(E4,fe,s,true,b);
    checkM(E4,E0,n,c,n,c,[&](int i, int k, int j, int l) { return s*w*((k == l ? lap(i,j) : 0.0) + D(i,l)*D(j,k)); },
           "Laplacian with stress terms");
  }
  Matrix E5(n*c,n*c), E6(n*c,n*c);
  Weak::Mass(E5,fe,s,b); Weak::Laplacian(E6,fe,s,false,b);
  for (int i = 1; i <= n*c; i++)
    for (int j = 1; j < i; j++) {
      vc_eq(E5(i,j),E5(j,i),"mass is symmetric");
      vc_eq(E6(i,j),E6(j,i),"Laplacian is symmetric");
    }
  vc_cover("mass and Laplacian");
}

CONTRACT(H_laplacian_coeff)
{
  Elm fe = element();
  int b = vc_pick("basis",1,2), n = fe.n[b];
  double s = vc_real("scale"), w = fe.detJxW;
  const Matrix& D = fe.grad(b);
  Matrix K(fe.nsd,fe.nsd); vc_fill(K.ptr(),K.size(),"K");
  Vec3 kd = arbV("kd");
  Matrix E0; arbM(E0,n,n);
  Matrix E1(E0); Weak::LaplacianCoeff(E1,K,fe,s,b);
  checkM(E1,E0,n,1,n,1,[&](int i, int, int j, int) {
    double e = 0.0;
    for (int p = 1; p <= fe.nsd; p++) for (int q = 1; q <= fe.nsd; q++) e += D(i,p)*K(p,q)*D(j,q);
    return s*w*e; },"Laplacian with coefficient matrix");
  Matrix E2(E0); Weak::LaplacianCoeff(E2,kd,fe,s,b);
  checkM(E2,E0,n,1,n,1,[&](int i, int, int j, int) {
    double e = 0.0;
    for (int p = 1; p <= fe.nsd; p++) e += D(i,p)*kd(p)*D(j,p);
    return s*w*e; },"Laplacian with diagonal coefficient");
}

CONTRACT(H_advection)
{
  Elm fe = element();
  int b = vc_pick("basis",1,2), n = fe.n[b], c = vc_pick("scalar",0,1) ? 1 : fe.nsd, f = vc_pick("form",0,2);
  double s = vc_real("scale"), w = fe.detJxW;
  const Vector& N = fe.basis(b); const Matrix& D = fe.grad(b);
  Vec3 U = arbV("U");
  auto adv = [&](int j) { double e = 0.0; for (int m = 1; m <= fe.nsd; m++) e += U(m)*D(j,m); return e; };
  Matrix E0; arbM(E0,n*c,n*c);
  Matrix E1(E0); Weak::Advection(E1,fe,U,s,(WeakOperators::ConvectionForm)f,b);
  checkM(E1,E0,n,c,n,c,[&](int i, int k, int j, int l) {
    double cv = N(i)*adv(j), cs = -adv(i)*N(j);
    return k != l ? 0.0 : s*w*(f == 0 ? cv : f == 1 ? cs : 0.5*(cv+cs)); },"advection");
}

CONTRACT(H_convection)
{
  Elm fe = element();
  int b = vc_pick("basis",1,2), n = fe.n[b], c = fe.nsd, f = vc_pick("form",0,2);
  double s = vc_real("scale"), w = fe.detJxW;
  const Vector& N = fe.basis(b); const Matrix& D = fe.grad(b);
  Vec3 U = arbV("U"), UC = arbV("UC");
  Tensor G(c); arbT(G);
  auto adv = [&](int j) { double e = 0.0; for (int m = 1; m <= c; m++) e += U(m)*D(j,m); return e; };
  Matrix E0; arbM(E0,n*c,n*c);
  Matrix E1(E0); Weak::Convection(E1,fe,U,G,s,(WeakOperators::ConvectionForm)f,b);
  // the linearization of u_l u_k,l v_k and of -u_k u_l v_k,l
  checkM(E1,E0,n,c,n,c,[&](int i, int k, int j, int l) {
    double cv = N(i)*N(j)*G(k,l) + (k == l ? N(i)*adv(j) : 0.0);
    double cs = -(D(i,l)*N(j)*U(k) + (k == l ? adv(i)*N(j) : 0.0));
    return s*w*(f == 0 ? cv : f == 1 ? cs : 0.5*(cv+cs)); },"linearized convection");
  Vector V0; arbVec(V0,n*c);
  Vector V1(V0); Res::Convection(V1,fe,U,G,UC,s,(WeakOperators::ConvectionForm)f,b);
  checkV(V1,V0,n,c,[&](int i, int k) {
    double cv = 0.0, cs = 0.0;
    for (int l = 1; l <= c; l++) { cv -= UC(l)*G(k,l)*N(i); cs += U(k)*UC(l)*D(i,l); }
    return s*w*(f == 0 ? cv : f == 1 ? cs : 0.5*(cv+cs)); },"convection residual");
  Vector V2(V0); Res::Advection(V2,fe,U,G,s,b);
  checkV(V2,V0,n,c,[&](int i, int k) {
    double e = 0.0;
    for (int l = 1; l <= c; l++) e += G(l,k)*U(l);
    return s*w*e*N(i); },"advection residual, columns of the tensor are the gradients");
}

CONTRACT(H_divergence_gradient)
{
  Elm fe = element();
  int b = vc_pick("basis",1,2), t = vc_pick("tbasis",1,2), nb = fe.n[b], nt = fe.n[t], c = fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  const Vector& N = fe.basis(b); const Matrix& D = fe.grad(t);
  Matrix E0; arbM(E0,nb,nt*c);
  Matrix E1(E0); Weak::Divergence(E1,fe,s,b,t);
  checkM(E1,E0,nb,1,nt,c,[&](int i, int, int j, int l) { return s*w*N(i)*D(j,l); },"divergence (q, div u)");
  arbM(E0,nt*c,nb);
  Matrix E2(E0); Weak::Gradient(E2,fe,s,b,t);
  checkM(E2,E0,nt,c,nb,1,[&](int i, int k, int j, int) { return -s*w*N(j)*D(i,k); },"gradient -(p, div v)");
}

CONTRACT(H_vectors)
{
  Elm fe = element();
  int b = vc_pick("basis",1,2), n = fe.n[b], c = fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  const Vector& N = fe.basis(b); const Matrix& D = fe.grad(b);
  Vec3 f = arbV("f");
  Tensor G(c); arbT(G);
  Vector S0, V0; arbVec(S0,n); arbVec(V0,n*c);
  Vector A(S0); Weak::Divergence(A,fe,f,s,b);
  checkV(A,S0,n,1,[&](int i, int) { double e = 0.0; for (int m = 1; m <= c; m++) e += D(i,m)*f(m); return s*w*e; },"divergence vector");
  A = S0; Weak::Source(A,fe,s,1,b);
  checkV(A,S0,n,1,[&](int i, int) { return s*w*N(i); },"scalar source");
  int cmp = vc_pick("cmp",0,c);
  Vector B(V0); Weak::Source(B,fe,s,cmp,b);
  checkV(B,V0,n,c,[&](int i, int k) { return cmp == 0 || cmp == k ? s*w*N(i) : 0.0; },"source in one or all components");
  B = V0; Weak::Source(B,fe,f,s,b);
  checkV(B,V0,n,c,[&](int i, int k) { return s*w*f(k)*N(i); },"vector source");
  A = S0; Res::Divergence(A,fe,G,s,b);
  double tr = 0.0; for (int m = 1; m <= c; m++) tr += G(m,m);
  checkV(A,S0,n,1,[&](int i, int) { return -s*w*tr*N(i); },"divergence residual");
  B = V0; Res::Gradient(B,fe,s,b);
  checkV(B,V0,n,c,[&](int i, int k) { return s*w*D(i,k); },"gradient residual");
  A = S0; Res::Laplacian(A,fe,f,s,b);
  checkV(A,S0,n,1,[&](int i, int) { double e = 0.0; for (int m = 1; m <= c; m++) e += D(i,m)*f(m); return -s*w*e; },"scalar Laplacian residual");
  bool st = vc_pick("stress",0,1);
  B = V0; Res::Laplacian(B,fe,G,s,st,b);
  checkV(B,V0,n,c,[&](int i, int k) {
    double e = 0.0;
    for (int m = 1; m <= c; m++) e += D(i,m)*(G(k,m) + (st ? G(m,k) : 0.0));
    return -s*w*e; },"vector Laplacian residual");
}

CONTRACT(H_itg_constraint)
{
  Elm fe = element();
  int b = vc_pick("basis",1,2), n = fe.n[b], c = vc_pick("scalar",0,1) ? 1 : fe.nsd;
  double s = vc_real("scale"), w = fe.detJxW;
  Matrix E0; arbM(E0,n*c,c);
  Matrix E1(E0); Weak::ItgConstraint(E1,fe,s,b);
  checkM(E1,E0,n,c,1,c,[&](int i, int k, int, int l) { return k == l ? s*w*fe.basis(b)(i) : 0.0; },"integral constraint");
}
