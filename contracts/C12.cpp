// VC-TU: src/Utility/BDF.C
#include "vc.h"
#include "BDF.h"
#include <vector>
using namespace TimeIntegration;

// Does sum_k c_k*p(t_n - s_k) equal dt^m * p^(m)(t_n) for p = 1, s, ..., s^deg with s measured backwards from t_n
static void exact(const std::vector<double>& c, const double* back, double dt, int m, int deg)
{
  for (int d = 0; d <= deg; d++) {
    double e = 0.0;
    for (size_t k = 0; k < c.size(); k++) {
      double x = 1.0;
      for (int i = 0; i < d; i++) x *= -back[k];
      e += c[k]*x;
    }
    double f = d == m ? (m == 2 ? 2.0*dt*dt : m == 1 ? dt : 1.0) : 0.0;
    vc_eq(e,f,"difference formula is exact for polynomials up to its order");
  }
}

CONTRACT(H_bdf_variable_step)
{
  int order = vc_pick("order",1,2), n = vc_pick("steps",1,6);
  BDF b(order);
  double t[8] = {0};
  double dt = 0, dtn = 0;
  for (int i = 1; i <= n; i++) {
    dtn = dt;
    dt = vc_real("dt");
    vc_assume(dt > 0.0);
    t[i] = t[i-1]+dt;
    vc_true(b.advanceStep(dt,dtn),"advancing is possible");
    const std::vector<double>& c = b.getCoefs();
    int act = i == 1 || order == 1 ? 1 : 2;
    vc_eqi(c.size(),act+1,"start-up formula is used for the first step only");
    vc_eqi(b.getOrder(),act,"order of the current step");
    vc_eqi(b.getActualOrder(),order,"order of the scheme");
    double back[3];
    for (int k = 0; k <= act; k++) back[k] = t[i]-t[i-k];
    exact(c,back,dt,1,act);
    for (int k = 0; k <= act; k++) vc_eq(b[k],c[k],"indexing gives the current coefficients");
  }
  vc_cover("BDF steps done");
}

// One step from an arbitrary point in the history: the state is the step counter and the coefficients left behind
CONTRACT(H_bdf_any_step)
{
  BDF b(2);
  b.step = vc_int("step",1,1000000);
  vc_fill(b.coefs.data(),3,"c");
  double dt = vc_real("dt"), dtn = vc_real("dtn");
  vc_assume(dt > 0.0 && dtn > 0.0);
  int s0 = b.step;
  vc_true(b.advanceStep(dt,dtn),"advancing is possible");
  vc_eqi(b.step,s0+1,"the step counter is advanced by one");
  double back[3] = {0.0,dt,dt+dtn};
  vc_eqi(b.getCoefs().size(),3,"full order is used after start-up");
  exact(b.getCoefs(),back,dt,1,2);
  std::vector<double> v = {vc_real("v"),vc_real("v")};
  vc_eq(b.extrapolate(v),2.0*v[0]-v[1],"second order extrapolation is exact for linear functions");
}

CONTRACT(H_bdf_constant_step)
{
  int order = vc_pick("order",0,2), n = vc_pick("steps",0,5);
  BDF b(order);
  for (int i = 0; i < n; i++)
    vc_true(b.advanceStep() == (order > 0),"only a transient problem can be advanced");
  double dt = vc_real("dt");
  vc_assume(dt > 0.0);
  double back[3] = {0.0,dt,dt+dt};
  const std::vector<double>& c = b.getCoefs();
  if (order == 0) {
    vc_eqi(c.size(),1,"stationary problem has one coefficient");
    vc_eq(c[0],1.0,"stationary coefficient");
  }
  else {
    int act = n < 2 ? 1 : order;
    vc_eqi(c.size(),act+1,"start-up formula is used up to the first step");
    vc_eqi(b.getOrder(),act,"order of the current step");
    exact(c,back,dt,1,act);
  }
  std::vector<double> v = {vc_real("v"),vc_real("v")};
  double e = b.extrapolate(v);
  vc_eq(e,order == 2 && n > 1 ? 2.0*v[0]-v[1] : v[0],"extrapolation of the order of the step");
}

CONTRACT(H_bdf_set_order)
{
  int o1 = vc_pick("o1",0,2), o2 = vc_pick("o2",0,2);
  BDF a(o1), b(o2);
  a.setOrder(o2);
  int n = vc_pick("steps",0,3);
  for (int i = 0; i < n; i++) { a.advanceStep(1.0,1.0); b.advanceStep(1.0,1.0); }
  const std::vector<double>& ca = a.getCoefs(); const std::vector<double>& cb = b.getCoefs();
  vc_eqi(ca.size(),cb.size(),"setting the order equals constructing with it");
  for (size_t i = 0; i < cb.size(); i++) vc_eq(ca[i],cb[i],"setting the order equals constructing with it");
  vc_eqi(a.getOrder(),b.getOrder(),"setting the order equals constructing with it");
}

CONTRACT(H_bdf_second_derivative)
{
  int order = vc_pick("order",1,2), n = vc_pick("steps",1,6), s0 = vc_pick("step0",0,1);
  BDFD2 b(order,s0);
  vc_eqi(b.getDegree(),2,"degree");
  for (int i = 0; i < n; i++) vc_true(b.advanceStep(),"advancing is possible");
  n += s0;
  double dt = vc_real("dt");
  vc_assume(dt > 0.0);
  const std::vector<double>& c = b.getCoefs();
  double back[5] = {0.0,dt,2*dt,3*dt,4*dt};
  vc_eqi(b.getActualOrder(),order,"order of the scheme");
  if (n < 2) {
    // zero velocity at the start: u = a + b*t^2
    vc_eqi(c.size(),2,"number of coefficients in the first step");
    double u0 = vc_real("u0"), a = vc_real("a");
    vc_eq(c[0]*(u0+a*dt*dt)+c[1]*u0,2*a*dt*dt,"first step formula is exact for quadratics starting at rest");
  }
  else if (n == 2 && order == 2) {
    vc_eqi(c.size(),3,"number of coefficients in the second step");
    // zero velocity at the start: exact for u = u0 + a*t^2 + q*t^3 at t = 2*dt
    double u0 = vc_real("u0"), a = vc_real("a"), q = vc_real("q");
    auto u = [u0,a,q](double t) { return u0+a*t*t+q*t*t*t; };
    vc_eq(c[0]*u(2*dt)+c[1]*u(dt)+c[2]*u(0.0),(2*a+12*q*dt)*dt*dt,"second step formula is exact for cubics starting at rest");
  }
  else {
    vc_eqi(c.size(),order+2,"number of coefficients");
    exact(c,back,dt,2,order+1);
  }
}
