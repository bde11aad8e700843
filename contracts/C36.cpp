// VC-TU: Apps/Utils/CompatibleOperators.C Apps/Utils/PiolaOperators.C Apps/Utils/EqualOrderOperators.C src/ASM/FiniteElement.C src/LinAlg/MatVec.C src/Utility/Tensor.C src/Utility/Vec3Oper.C src/Utility/CoordinateMapping.C
// VC-TIME: 120
#include "vc.h"
#include "CompatibleOperators.h"
#include "PiolaOperators.h"
#include "FiniteElement.h"
#include "Tensor.h"
#include "Vec3.h"
#include "Profiler.h"
#include <functional>

Profiler* utl::profiler = nullptr;

using CWeak = CompatibleOperators::Weak;
using CRes  = CompatibleOperators::Residual;
using PWeak = PiolaOperators::Weak;
using PRes  = PiolaOperators::Residual;
typedef std::array<std::array<int,3>,3> Idx2;
typedef std::array<int,3> Idx1;

namespace {
//! A mixed element with one scalar basis for each velocity component, and one for the pressure
struct Elm : public MxFiniteElement
{
  int nsd, ntot;
  std::vector<int> n;
  Elm(int ns, const std::vector<size_t>& sz, bool piola) : MxFiniteElement(sz), nsd(ns), ntot(0), n(sz.begin(),sz.end())
  {
    for (int b = 1; b <= nsd+1; b++) {
      vc_fill(this->basis(b).ptr(),n[b-1],"N");
      this->grad(b).resize(n[b-1],nsd);
      if (!piola || b == 1) vc_fill(this->grad(b).ptr(),n[b-1]*nsd,"dN");
      if (b <= nsd) ntot += n[b-1];
    }
    detJxW = vc_real("detJxW");
    if (!piola) return;
    P.resize(nsd,ntot); vc_fill(P.ptr(),nsd*ntot,"P");
    dPdX.resize(nsd*nsd,ntot); vc_fill(dPdX.ptr(),nsd*nsd*ntot,"dP");
  }
  //! Derivative of component i of the Piola function c in direction d (0-based)
  double dP(int i, int d, int c) const { return dPdX(d*nsd+i+1,c+1); }
  int offset(int b) const { int o = 0; for (int i = 0; i < b; i++) o += n[i]; return o; }
};
}

static Elm element(bool piola)
{
  int nsd = vc_pick("nsd",2,3), big = vc_pick("largest",0,3);
  vc_assume(big <= nsd);
  std::vector<size_t> sz(nsd+1,1);
  sz[big] = 2;
  return Elm(nsd,sz,piola);
}

static Vec3 arbV(const char* nm) { return Vec3(vc_real(nm),vc_real(nm),vc_real(nm)); }
static void arbT(Tensor& T) { std::vector<Real>& v = T; vc_fill(v.data(),v.size(),"T"); }

namespace {
//! Block matrices and vectors, with two different numberings of the blocks
struct Blocks
{
  Elm& fe;
  Matrices A, A0;
  Vectors b, b0;
  Idx2 i2;
  Idx1 i1, g1;
  bool lower;
  Blocks(Elm& e, int order, bool low = true) : fe(e), lower(low)
  {
    static const Idx2 o2[2] = {{{{1,4,5},{6,2,7},{8,9,3}}},{{{3,1,2},{6,5,4},{9,8,7}}}};
    static const Idx1 o1[2] = {{1,2,3},{3,1,2}};
    i2 = o2[order]; i1 = o1[order]; g1 = {10+order,12,11-order};
    A.resize(13); b.resize(4);
    for (int k = 0; k < fe.nsd; k++) {
      b[i1[k]].resize(fe.n[k]);
      vc_fill(b[i1[k]].ptr(),fe.n[k],"EV");
      A[g1[k]].resize(fe.n[k],fe.n[fe.nsd]);
      vc_fill(A[g1[k]].ptr(),A[g1[k]].size(),"EM");
      for (int l = 0; l < fe.nsd; l++)
        if (k <= l || low) {
          Matrix& M = A[i2[k][l]];
          M.resize(fe.n[k],fe.n[l]);
          vc_fill(M.ptr(),M.size(),"EM");
        }
    }
    A0 = A; b0 = b;
  }
  //! form(k,i,l,j): test function i of component k, trial function j of component l, all 1-based
  void check2(const std::function<double(int,int,int,int)>& form, const char* what) const
  {
    vc_eqi(A[0].size(),0,"the total matrix is left alone");
    for (int k = 0; k < fe.nsd; k++)
      for (int l = 0; l < fe.nsd; l++) {
        const Matrix& M = A[i2[k][l]];
        const Matrix& M0 = A0[i2[k][l]];
        vc_eqi(M.rows(),M0.rows(),"rows of block"); vc_eqi(M.cols(),M0.cols(),"columns of block");
        for (size_t i = 1; i <= M.rows(); i++)
          for (size_t j = 1; j <= M.cols(); j++)
            vc_eq(M(i,j),M0(i,j)+form(k+1,i,l+1,j),what);
      }
    for (int g = 10; g < 13; g++)
      for (size_t i = 0; i < A[g].size(); i++) vc_eq(A[g].ptr()[i],A0[g].ptr()[i],"the pressure blocks are left alone");
  }
  //! form(k,i,j): velocity function i of component k, pressure function j
  void checkG(const std::function<double(int,int,int)>& form, const char* what) const
  {
    for (int k = 0; k < fe.nsd; k++)
      for (int i = 1; i <= fe.n[k]; i++)
        for (int j = 1; j <= fe.n[fe.nsd]; j++)
          vc_eq(A[g1[k]](i,j),A0[g1[k]](i,j)+form(k+1,i,j),what);
    for (int g = 1; g < 10; g++)
      for (size_t i = 0; i < A[g].size(); i++) vc_eq(A[g].ptr()[i],A0[g].ptr()[i],"the velocity blocks are left alone");
  }
  void check1(const std::function<double(int,int)>& form, const char* what) const
  {
    vc_eqi(b[0].size(),0,"the total vector is left alone");
    for (int k = 0; k < fe.nsd; k++) {
      vc_eqi(b[i1[k]].size(),fe.n[k],"size of block vector");
      for (int i = 1; i <= fe.n[k]; i++)
        vc_eq(b[i1[k]](i),b0[i1[k]](i)+form(k+1,i),what);
    }
  }
};
}

CONTRACT(H_compatible_mass_laplacian)
{
  Elm fe = element(false);
  int order = vc_pick("order",0,1), stress = vc_pick("stress",0,1), low = vc_pick("lower",0,1);
  double s = vc_real("scale"), w = fe.detJxW;
  Blocks M(fe,order,low), L(fe,order,low);
  CWeak::Mass(M.A,fe,M.i2,s);
  M.check2([&](int k, int i, int l, int j) { return k == l ? s*w*fe.basis(k)(i)*fe.basis(k)(j) : 0.0; },"mass (u,v)");
  CWeak::Laplacian(L.A,fe,L.i2,s,stress);
  L.check2([&](int k, int i, int l, int j) {
    double e = 0.0;
    if (k == l) for (int m = 1; m <= fe.nsd; m++) e += fe.grad(k)(i,m)*fe.grad(k)(j,m);
    if (stress) e += fe.grad(k)(i,l)*fe.grad(l)(j,k);
    return s*w*e; },"Laplacian (grad u, grad v), or (grad u + grad u^T, grad v)");
  vc_cover("mass and Laplacian");
}

CONTRACT(H_compatible_advection)
{
  Elm fe = element(false);
  int order = vc_pick("order",0,1), form = vc_pick("form",0,2);
  double s = vc_real("scale"), w = fe.detJxW;
  Vec3 U = arbV("U");
  Blocks B(fe,order);
  CWeak::Advection(B.A,fe,U,B.i2,s,static_cast<WeakOperators::ConvectionForm>(form));
  B.check2([&](int k, int i, int l, int j) {
    if (k != l) return 0.0;
    double c = 0.0, t = 0.0;
    for (int m = 1; m <= fe.nsd; m++) {
      c += fe.basis(k)(i)*U[m-1]*fe.grad(k)(j,m);
      t -= fe.grad(k)(i,m)*U[m-1]*fe.basis(k)(j);
    }
    return s*w*(form == WeakOperators::CONVECTIVE ? c : (form == WeakOperators::CONSERVATIVE ? t : 0.5*(c+t)));
  },"advection operator");
  vc_cover("advection");
}

// The convection operator is the derivative of the residual with respect to the velocity
CONTRACT(H_compatible_convection)
{
  Elm fe = element(false);
  int order = vc_pick("order",0,1), form = vc_pick("form",0,2);
  double s = vc_real("scale"), w = fe.detJxW;
  Vec3 U = arbV("U"), V = arbV("UC");
  Tensor G(fe.nsd); arbT(G);
  Blocks B(fe,order), R(fe,order);
  CWeak::Convection(B.A,fe,U,G,B.i2,s,static_cast<WeakOperators::ConvectionForm>(form));
  B.check2([&](int k, int i, int l, int j) {
    const Vector& N = fe.basis(k);
    const Vector& M = fe.basis(l);
    double c = N(i)*G(k,l)*M(j), t = -fe.grad(k)(i,l)*U[k-1]*M(j);
    if (k == l)
      for (int m = 1; m <= fe.nsd; m++) {
        c += N(i)*U[m-1]*fe.grad(l)(j,m);
        t -= fe.grad(k)(i,m)*U[m-1]*M(j);
      }
    return s*w*(form == WeakOperators::CONVECTIVE ? c : (form == WeakOperators::CONSERVATIVE ? t : 0.5*(c+t)));
  },"linearized convection operator");
  CRes::Convection(R.b,fe,U,G,V,R.i1,s,static_cast<WeakOperators::ConvectionForm>(form));
  R.check1([&](int k, int i) {
    double c = 0.0, t = 0.0;
    for (int m = 1; m <= fe.nsd; m++) {
      c -= fe.basis(k)(i)*V[m-1]*G(k,m);
      t += fe.grad(k)(i,m)*V[m-1]*U[k-1];
    }
    return s*w*(form == WeakOperators::CONVECTIVE ? c : (form == WeakOperators::CONSERVATIVE ? t : 0.5*(c+t)));
  },"convection residual");
  vc_cover("convection");
}

CONTRACT(H_compatible_pressure)
{
  Elm fe = element(false);
  int order = vc_pick("order",0,1), what = vc_pick("op",0,1);
  double s = vc_real("scale"), w = fe.detJxW;
  Blocks B(fe,order);
  if (what == 0) {
    CWeak::Gradient(B.A,fe,B.g1,s);
    B.checkG([&](int k, int i, int j) { return -s*w*fe.grad(k)(i,k)*fe.basis(fe.nsd+1)(j); },"pressure gradient -(div v, p)");
    vc_cover("gradient");
  }
  else {
    for (int k = 0; k < fe.nsd; k++) {
      B.A[B.g1[k]].resize(fe.n[k],1,true);
      vc_fill(B.A[B.g1[k]].ptr(),fe.n[k],"EM");
      B.A0[B.g1[k]] = B.A[B.g1[k]];
    }
    CWeak::ItgConstraint(B.A,fe,B.g1);
    for (int k = 0; k < fe.nsd; k++)
      for (int i = 1; i <= fe.n[k]; i++)
        vc_eq(B.A[B.g1[k]](i,1),B.A0[B.g1[k]](i,1)+w*fe.basis(k+1)(i),"integral of the basis functions");
    vc_cover("constraint");
  }
}

CONTRACT(H_compatible_vectors)
{
  Elm fe = element(false);
  int order = vc_pick("order",0,1), stress = vc_pick("stress",0,1);
  double s = vc_real("scale"), w = fe.detJxW;
  Vec3 f = arbV("f");
  Tensor G(fe.nsd); arbT(G);
  Blocks B1(fe,order), B2(fe,order), B3(fe,order), B4(fe,order);
  CWeak::Source(B1.b,fe,f,B1.i1,s);
  B1.check1([&](int k, int i) { return s*w*f[k-1]*fe.basis(k)(i); },"source (f,v)");
  CWeak::Source(B2.b,fe,B2.i1,s);
  B2.check1([&](int k, int i) { return s*w*fe.basis(k)(i); },"unit source");
  CRes::Gradient(B3.b,fe,B3.i1,s);
  B3.check1([&](int k, int i) { return s*w*fe.grad(k)(i,k); },"pressure residual (p, div v)");
  CRes::Laplacian(B4.b,fe,G,B4.i1,s,stress);
  B4.check1([&](int k, int i) {
    double e = 0.0;
    for (int m = 1; m <= fe.nsd; m++) e += fe.grad(k)(i,m)*(G(k,m) + (stress ? G(m,k) : 0.0));
    return -s*w*e; },"Laplacian residual");
  vc_cover("vectors");
}

CONTRACT(H_piola_matrices)
{
  Elm fe = element(true);
  int order = vc_pick("order",0,1), op = vc_pick("op",0,3), low = vc_pick("lower",0,1);
  double s = vc_real("scale"), w = fe.detJxW;
  Vec3 U = arbV("U");
  Tensor G(fe.nsd); arbT(G);
  Blocks B(fe,order,low);
  if (op == 0)      PWeak::Mass(B.A,fe,B.i2,s);
  else if (op == 1) PWeak::Laplacian(B.A,fe,B.i2,s,false);
  else if (op == 2) PWeak::Advection(B.A,fe,U,B.i2,s);
  else              PWeak::Convection(B.A,fe,U,G,B.i2,s);
  auto form = [&](int k, int i, int l, int j) {
    int r = fe.offset(k-1)+i-1, c = fe.offset(l-1)+j-1;
    double e = 0.0;
    for (int a = 0; a < fe.nsd; a++) {
      if (op == 0) e += fe.P(a+1,r+1)*fe.P(a+1,c+1);
      for (int d = 0; d < fe.nsd; d++) {
        if (op == 1) e += fe.dP(a,d,r)*fe.dP(a,d,c);
        if (op >= 2) e += fe.P(a+1,r+1)*U[d]*fe.dP(a,d,c);
        if (op == 3) e += fe.P(a+1,r+1)*G(a+1,d+1)*fe.P(d+1,c+1);
      }
    }
    return s*w*e; };
  if (op == 0)      B.check2(form,"mass of the Piola-mapped functions");
  else if (op == 1) B.check2(form,"Laplacian of the Piola-mapped functions");
  else if (op == 2) B.check2(form,"advection of the Piola-mapped functions");
  else              B.check2(form,"linearized convection of the Piola-mapped functions");
  vc_cover("piola matrices");
}

CONTRACT(H_piola_vectors)
{
  Elm fe = element(true);
  int order = vc_pick("order",0,1);
  double s = vc_real("scale"), w = fe.detJxW;
  Vec3 f = arbV("f"), V = arbV("UC");
  Tensor G(fe.nsd); arbT(G);
  Blocks B1(fe,order), B2(fe,order), B3(fe,order), B4(fe,order), B5(fe,order);
  auto col = [&](int k, int i) { return fe.offset(k-1)+i-1; };
  auto div = [&](int c) { double e = 0.0; for (int d = 0; d < fe.nsd; d++) e += fe.dP(d,d,c); return e; };
  PWeak::Source(B1.b,fe,f,B1.i1,s);
  B1.check1([&](int k, int i) { double e = 0.0; for (int a = 0; a < fe.nsd; a++) e += f[a]*fe.P(a+1,col(k,i)+1); return s*w*e; },
            "source (f,v)");
  PRes::Gradient(B2.b,fe,B2.i1,s);
  B2.check1([&](int k, int i) { return s*w*div(col(k,i)); },"pressure residual (p, div v)");
  PRes::Laplacian(B3.b,fe,G,B3.i1,s,false);
  B3.check1([&](int k, int i) {
    double e = 0.0;
    for (int a = 0; a < fe.nsd; a++)
      for (int d = 0; d < fe.nsd; d++) e += fe.dP(a,d,col(k,i))*G(a+1,d+1);
    return -s*w*e; },"Laplacian residual");
  PRes::Convection(B4.b,fe,f,G,V,B4.i1,s);
  B4.check1([&](int k, int i) {
    double e = 0.0;
    for (int a = 0; a < fe.nsd; a++)
      for (int d = 0; d < fe.nsd; d++) e += fe.P(a+1,col(k,i)+1)*G(a+1,d+1)*V[d];
    return -s*w*e; },"convection residual");
  PWeak::Gradient(B5.A,fe,B5.g1,s);
  B5.checkG([&](int k, int i, int j) { return -s*w*div(col(k,i))*fe.basis(fe.nsd+1)(j); },"pressure gradient -(div v, p)");
  vc_cover("piola vectors");
}
