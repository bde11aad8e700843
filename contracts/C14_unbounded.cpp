// Element matrices of any size: every loop over the degrees of freedom is decided by induction.
// VC-TU: src/ASM/ElmMats.C src/ASM/NewmarkMats.C src/ASM/HHTMats.C src/ASM/BDFMats.C src/LinAlg/MatVec.C src/Utility/BDF.C
// VC-TIME: 300
#include "vc.h"
#include "NewmarkMats.h"
#include "HHTMats.h"
#include "BDFMats.h"

static void fill(ElmMats& e, size_t n)
{
  for (Matrix& A : e.A) { A.resize(n,n); vc_fill(A.ptr(),n*n,"A"); }
  for (Vector& b : e.b) { b.resize(n); vc_fill(b.ptr(),n,"b"); }
}
static void fillV(Vectors& vec, size_t n) { for (Vector& v : vec) { v.resize(n); vc_fill(v.ptr(),n,"v"); } }
static double mv(const Matrix& A, const Vector& v, size_t i)
{
  double s = 0.0;
  for (size_t k = 1; k <= v.size(); k++) s += A(i,k)*v(k);
  return s;
}

CONTRACT(P_newmark_matrices)
{
  size_t n = vc_size("ndof",1,2); int nA = vc_pick("nA",2,4), mode = vc_pick("mode",0,2), noM = vc_pick("noMass",0,1);
  double a1 = vc_real_range("alpha1",0,10), a2 = vc_real_range("alpha2",0,10), h = vc_real("dt");
  vc_assume(h > 0.0);
  double beta, gamma, am = 1.0, af = 1.0, p, q;
  if (mode == 2) {
    p = vc_real_range("alpha_m",0.6,1.4); q = vc_real_range("alpha_f",0.6,1.4);
    am = p; af = q;
    double al = af-am;
    beta = 0.25*(1.0-al)*(1.0-al); gamma = 0.5-al;
  }
  else {
    beta = vc_real_range("beta",0.01,1.0); gamma = vc_real_range("gamma",0,1);
    p = mode == 1 ? -beta : beta; q = gamma;
  }
  NewmarkMats e(a1,a2,p,q,mode == 2);
  vc_eq(e.beta,beta,"parameter beta");
  vc_eq(e.gamma,gamma,"parameter gamma");
  e.resize(nA,1);
  fill(e,n);
  if (noM) e.A[1].resize(0,0);
  e.setStepSize(h,vc_pick("it",0,1));
  Matrices A(e.A);
  const Matrix& N = e.getNewtonMatrix();
  double s = mode == 1 ? 1.0/(beta*h*h) : 1.0;
  for (size_t i = 1; i <= n; i++)
    for (size_t j = 1; j <= n; j++) {
      double r = 0.0;
      if (!noM) r += (am+af*a1*gamma*h)*A[1](i,j);
      if (nA > 2) r += af*(a2*gamma*h+beta*h*h)*A[2](i,j);
      if (nA > 3) r += af*gamma*h*A[3](i,j);
      vc_eq(N(i,j),s*r,"Newmark effective matrix");
      for (int k = 1+noM; k < nA; k++) vc_eq(e.A[k](i,j),A[k](i,j),"component matrices are not changed");
    }
}

CONTRACT(P_newmark_rhs)
{
  size_t n = vc_size("ndof",1,2); int nA = vc_pick("nA",1,4), nB = vc_pick("nB",1,2), nV = vc_pick("nV",2,3);
  double a1 = vc_pick("damp1",0,1) ? vc_real_range("alpha1",0.001,10) : 0.0;
  double a2 = vc_pick("damp2",0,1) ? vc_real_range("alpha2",0.001,10) : 0.0;
  NewmarkMats e(a1,a2,0.25,0.5);
  e.resize(nA,nB);
  fill(e,n);
  e.vec.resize(nV); fillV(e.vec,n);
  e.setStepSize(0.1,1);
  Vectors b(e.b);
  const Vector& R = e.getRHSVector();
  for (size_t i = 1; i <= n; i++) {
    double r = b[0](i);
    if (nV > 2) {
      if (nA > 1) r -= mv(e.A[1],e.vec[2],i) + a1*mv(e.A[1],e.vec[1],i);
      if (nB > 1) r -= b[1](i);
      else if (nA > 3) r -= mv(e.A[3],e.vec[1],i);
      if (nA > 2) r -= a2*mv(e.A[2],e.vec[1],i);
    }
    vc_eq(R(i),r,"Newmark residual f - M*a - C*v");
  }
}

CONTRACT(P_hht_matrices)
{
  size_t n = vc_size("ndof",1,2); int nA = vc_pick("nA",2,5), noM = vc_pick("noMass",0,1);
  double al = vc_real_range("alpha",-0.5,0.0), a1 = vc_real_range("alpha1",0,10), a2 = vc_real_range("alpha2",0,10), h = vc_real("dt");
  vc_assume(h > 0.0);
  HHTMats e(al,a1,a2,vc_pick("old",0,1));
  double beta = 0.25*(1-al)*(1-al), gamma = 0.5-al;
  vc_eq(e.beta,beta,"parameter beta");
  vc_eq(e.gamma,gamma,"parameter gamma");
  e.resize(nA,1);
  fill(e,n);
  if (noM) e.A[1].resize(0,0);
  e.setStepSize(h,vc_pick("it",0,1));
  Matrices A(e.A);
  const Matrix& N = e.getNewtonMatrix();
  double g = gamma/(beta*h);
  for (size_t i = 1; i <= n; i++)
    for (size_t j = 1; j <= n; j++) {
      double r = 0.0;
      if (!noM) r += (1.0/(beta*h*h)+(1+al)*a1*g)*A[1](i,j);
      if (nA > 2) r += (1+al)*(1+a2*g)*A[2](i,j);
      if (nA > 3) r += (1+al)*A[3](i,j);
      if (nA > 4) r += (1+al)*g*A[4](i,j);
      vc_eq(N(i,j),r,"HHT effective matrix");
      for (int k = 1+noM; k < nA; k++) vc_eq(e.A[k](i,j),A[k](i,j),"component matrices are not changed");
    }
}

CONTRACT(P_hht_rhs)
{
  size_t n = vc_size("ndof",1,2); int nA = vc_pick("nA",2,5), nB = vc_pick("nB",1,4), nV = 3+2*vc_pick("pred",0,1);
  int old = vc_pick("old",0,1), it = vc_pick("it",0,1);
  double a1 = vc_pick("damp",0,1) ? vc_real_range("alpha1",0.001,10) : 0.0;
  double a2 = a1 > 0.0 ? vc_real_range("alpha2",0.001,10) : 0.0;
  double al = vc_real_range("alpha",-0.5,0.0);
  HHTMats e(al,a1,a2,old);
  e.resize(nA,nB);
  fill(e,n);
  e.vec.resize(nV); fillV(e.vec,n);
  e.setStepSize(0.1,it);
  Vectors b(e.b);
  const Vector& R = e.getRHSVector();
  const Vector& v = e.vec[1]; const Vector& a = e.vec[2];
  bool pred = it == 0;
  for (size_t i = 1; i <= n; i++) {
    auto damp = [&](const Vector& x, bool fd) -> double {
      double s = a1*mv(e.A[1],x,i);
      if (nA > 2) s += a2*mv(e.A[2],x,i);
      if (fd && nB > 3) s += b[3](i);
      else if (nA > 4) s += mv(e.A[4],x,i);
      return s;
    };
    double r;
    if (old)
      // predictor: (1+alpha)*{Sext - Sint + damping} + M*a, corrector: (1+alpha)*{Sext - Sint - damping} - M*a
      r = (1+al)*(b[0](i)+(nB > 2 ? b[2](i) : 0.0)+(pred ? 1 : -1)*damp(v,true)) + (pred ? 1 : -1)*mv(e.A[1],a,i);
    else if (pred && nV%3 == 2) {
      // predictor: (1+alpha)*damping with the predicted velocity + M*(A-a); V and A are the two last vectors
      const Vector& V = e.vec[nV-2]; const Vector& A = e.vec[nV-1];
      r = (1+al)*damp(V,true) + mv(e.A[1],A,i) - mv(e.A[1],a,i);
    }
    else
      r = (1+al)*(b[0](i)+(pred ? 1 : -1)*damp(v,true)) - mv(e.A[1],a,i);
    vc_eq(R(i),r,"HHT residual");
    if ((pred || old) && nB > 1) {
      double f = b[0](i)+(nB > 2 ? b[2](i) : 0.0)-damp(v,false);
      vc_eq(e.b[1](i),f,"actual inertia force is Fext - Fs - Fd");
    }
  }
}

CONTRACT(P_bdf_matrices)
{
  size_t n = vc_size("ndof",1,2); int order = vc_pick("order",1,2), steps = vc_pick("steps",1,4), nV = vc_pick("nV",4,5);
  TimeIntegration::BDFD2 bdf(order);
  for (int i = 0; i < steps; i++) bdf.advanceStep();
  double h = vc_real("dt");
  vc_assume(h > 0.0);
  BDFMats e(bdf);
  e.resize(3,1);
  fill(e,n);
  e.vec.resize(nV); fillV(e.vec,n);
  e.setStepSize(h,0);
  Matrices A(e.A); Vectors b(e.b);
  const Matrix& N = e.getNewtonMatrix();
  const Vector& R = e.getRHSVector();
  const std::vector<double>& c = bdf.getCoefs();
  for (size_t i = 1; i <= n; i++) {
    for (size_t j = 1; j <= n; j++)
      vc_eq(N(i,j),A[2](i,j)+c[0]/(h*h)*A[1](i,j),"BDF effective matrix");
    double r = b[0](i);
    for (size_t k = 0; k < c.size(); k++) r -= c[k]/(h*h)*mv(A[1],e.vec[k],i);
    vc_eq(R(i),r,"BDF residual");
  }
}
