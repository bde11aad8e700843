// VC-TU: Apps/Utils/StabilizationUtils.C src/LinAlg/MatVec.C src/Utility/Vec3Oper.C
#include "vc.h"
#include "StabilizationUtils.h"
#include "Vec3Oper.h"
using namespace StabilizationUtils;

struct In { int n; double dt, mu, Ct, Cl; Vector U; Matrix G; double D, UGU, UU, tr; };

static void input(In& s, bool sym)
{
  s.n = vc_pick("nsd",1,3);
  s.dt = vc_real_range("dt",0.001,10); s.mu = vc_real_range("mu",0.0,10);
  s.Ct = vc_real_range("Ct",0.5,10); s.Cl = vc_real_range("Cl",0.5,100);
  s.U.resize(s.n); s.G.resize(s.n,s.n);
  vc_fill(s.U.ptr(),s.n,"U"); vc_fill(s.G.ptr(),s.n*s.n,"G");
  if (sym) for (int i = 1; i <= s.n; i++) for (int j = 1; j < i; j++) s.G(i,j) = s.G(j,i);
  s.UGU = s.UU = s.tr = 0.0;
  double g2 = 0.0;
  for (int i = 1; i <= s.n; i++) {
    for (int j = 1; j <= s.n; j++) { s.UGU += s.U(i)*s.G(i,j)*s.U(j); g2 += s.G(i,j)*s.G(i,j); }
    s.UU += s.U(i)*s.U(i); s.tr += s.G(i,i);
  }
  s.D = s.Ct/(s.dt*s.dt)+s.UGU+s.Cl*s.mu*s.mu*g2;
  vc_assume(s.UGU >= 0.0 && s.tr > 0.0);
}

CONTRACT(H_tau_formulas)
{
  In s; input(s,false);
  double t = getTauPt(s.dt,s.mu,s.U,s.G,s.Ct,s.Cl);
  vc_true(t > 0.0,"tau is positive");
  vc_eq(t*t*s.D,1.0,"tau is 1/sqrt(Ct/dt^2 + u.Gu + Cl*mu^2*G:G)");
  auto ns = getTauNSPt(s.dt,s.mu,s.U,s.G,s.Ct,s.Cl);
  vc_eq(ns.first,t,"momentum parameter");
  vc_eq(ns.second*t*s.tr,1.0,"continuity parameter is 1/(tau*tr G)");
  auto ale = getTauNSALEPt(s.dt,s.mu,s.U,s.G,s.Ct,s.Cl);
  vc_eq(ale.first,t,"momentum parameter, ALE");
  vc_eq(ale.second,t*s.UU,"continuity parameter, ALE, is tau*u.u");
  vc_cover("stabilization parameters");
}

CONTRACT(H_tau_defaults)
{
  In s; input(s,false);
  vc_eq(getTauPt(s.dt,s.mu,s.U,s.G),getTauPt(s.dt,s.mu,s.U,s.G,2.0,36.0),"default constants");
  vc_eq(getTauNSPt(s.dt,s.mu,s.U,s.G).second,getTauNSPt(s.dt,s.mu,s.U,s.G,2.0,36.0).second,"default constants");
  vc_eq(getTauNSALEPt(s.dt,s.mu,s.U,s.G).second,getTauNSALEPt(s.dt,s.mu,s.U,s.G,2.0,36.0).second,"default constants");
}

CONTRACT(H_tau_jacobians)
{
  In s; input(s,true);
  auto ns = getTauNSPt(s.dt,s.mu,s.U,s.G,s.Ct,s.Cl);
  double t = ns.first, c = ns.second;
  Vector j1 = getTauPtJac(s.U,s.G,t);
  auto j2 = getTauNSPtJac(s.U,s.G,t,c);
  vc_eqi(j1.size(),s.n,"size of the Jacobian");
  for (int k = 1; k <= s.n; k++) {
    // D = t^-2, so dt/dU_k = -1/2 t^3 dD/dU_k, with dD/dU_k = sum_j (G_kj+G_jk)*U_j
    double dD = 0.0;
    for (int j = 1; j <= s.n; j++) dD += (s.G(k,j)+s.G(j,k))*s.U(j);
    double d = -0.5*t*t*t*dD;
    vc_eq(j1(k),d,"Jacobian is the derivative of tau");
    vc_eq(j2.first(k),d,"Jacobian of the momentum parameter");
    // c = 1/(t*tr), so dc/dU_k = -1/(t^2*tr)*dt/dU_k
    vc_eq(j2.second(k),-d/(t*t*s.tr),"Jacobian of the continuity parameter");
  }
}

CONTRACT(H_element_size)
{
  int nsd = vc_pick("nsd",2,3), nn = nsd == 2 ? 4 : 8;
  std::vector<Vec3> X(nn);
  if (vc_symbolic()) {
    // a box with arbitrary sides, where one of the edges has been shortened by an arbitrary amount
    Vec3 side(vc_real_range("a",0.1,10.0),vc_real_range("b",0.1,10.0),vc_real_range("c",0.1,10.0));
    for (int i = 0; i < nn; i++) X[i] = Vec3(i&1 ? side.x : 0.0,i&2 ? side.y : 0.0,i&4 ? side.z : 0.0);
    int d = vc_pick("dir",0,nsd-1), i = vc_pick("corner",0,nn-1);
    if (i&(1<<d)) vc_stop();
    double e = vc_real_range("shrink",0.0,0.49)*side[d];
    X[i][d] += e;
    X[i|(1<<d)][d] -= e;
  }
  else
    for (Vec3& x : X) x = Vec3(vc_real("x"),vc_real("y"),nsd > 2 ? vc_real("z") : 0.0);
  double h = getElementSize(X,nsd);
  bool hit = nsd == 3 && h == 1e8;
  for (int i = 0; i < nn; i++)
    for (int d = 1; d < nn; d *= 2) {
      int j = i^d;
      if (j < i) continue;
      double l = (X[i]-X[j]).length();
      vc_le(h,l,"the element size is at most every edge length");
      if (h == l) hit = true;
    }
  vc_true(hit,"the element size is the length of an edge");
}
