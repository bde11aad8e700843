// VC-TU: src/SIM/TimeStep.C src/LinAlg/MatVec.C src/Utility/LogStream.C src/Utility/Utilities.C Apps/Utils/TimeIntUtils.C
// VC-TIME: 120
// VC-ASSUME: the semi-discrete problem (assembly, equation solver, boundary values, solution norm) is replaced by arbitrary results
#include "vc.h"
#include "MatVec.h"
#include "SystemMatrix.h"
#include "LogStream.h"
#include "IFEM.h"
#include "SIMoptions.h"
#include "SIMExplicitRK.h"
#include "SIMExplicitRKE.h"
#include "SIMExplicitLMM.h"
#include <iostream>
#include <cmath>
#include <functional>
#include <map>

utl::LogStream IFEM::cout(std::cout);

using namespace TimeIntegration;

namespace {

struct NoStream
{
  template<class T> NoStream& operator<<(const T&) { return *this; }
  NoStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};

//! A plain system vector
class RhsVec : public SystemVector
{
public:
  Vector v;
  explicit RhsVec(size_t n) : v(n) {}
  LinAlg::MatrixType getType() const override { return LinAlg::DENSE; }
  SystemVector* copy() const override { return new RhsVec(*this); }
  size_t dim() const override { return v.size(); }
  void redim(size_t n) override { v.resize(n); }
  Real* getPtr() override { return v.ptr(); }
  const Real* getRef() const override { return v.ptr(); }
  const Vector& vec() const override { return v; }
  void init(Real x) override { v.fill(x); }
  void assemble(const Vectors&, const IntVec&, int) override {}
  void mult(Real a) override { v *= a; }
  void add(const SystemVector& x, Real s) override { v.add(x.vec(),s); }
  Real L1norm() const override { return 0.0; }
  Real L2norm() const override { return 0.0; }
  Real Linfnorm() const override { return 0.0; }
};

//! The semi-discrete problem du/dt = f(t,u), the first value is prescribed
struct Problem
{
  static int msgLevel;
  struct Adm { mutable NoStream cout; } adm;
  struct Itg { std::string getField1Name(size_t) const { return ""; } } itg;

  size_t n;
  bool bc = true;                       // whether there are prescribed values
  Vectors sol;
  std::vector<double> at;               // the time of each assembly
  Vectors state, k;                     // the state of each assembly, and the slopes found
  std::vector<int> lhs, modes;          // whether each assembly is for the left-hand side too, the mode of each
  std::map<int,double> g;               // prescribed values, by the order in which the times appear
  std::vector<double> gTime;
  int mode = -1, nInit = 0;
  double dirTime = 0.0, initTime = 0.0;
  int absolute = -1;                    // what the prescribed values are set up for
  bool rateOk = true;
  RhsVec b;
  // results of the norm of the error
  std::vector<double> est;
  int maxEst = 0;                       // number of estimates above the tolerance
  double tol = 0.0;
  Vectors error;
  std::function<Vector(double)> slope;  // right-hand side as function of time, if given

  Problem(size_t ndof, size_t nsol) : n(ndof), sol(nsol), b(ndof)
  {
    for (Vector& s : sol) {
      s.resize(n);
      vc_fill(s.ptr(),n,"u");
    }
  }
  const Adm& getProcessAdm() const { return adm; }
  const Itg* getProblem() const { return &itg; }
  void setMode(int m) { mode = m; }
  Vector& getSolution(int i = 0) { return sol[i]; }
  bool initDirichlet(double t) { ++nInit; initTime = t; return true; }
  double value(double t)
  {
    for (size_t i = 0; i < gTime.size(); i++) if (gTime[i] == t) return g[i];
    gTime.push_back(t);
    return g[gTime.size()-1] = vc_real("g");
  }
  bool updateDirichlet(double t, const Vector* prev, bool rate = false)
  {
    dirTime = t;
    absolute = prev && prev->empty() && !rate;
    if (rate) {
      rateOk = prev && prev->size() == n;
      if (rateOk) for (double x : *prev) if (x != 0.0) rateOk = false;
    }
    return true;
  }
  bool applyDirichlet(Vector& v)
  {
    vc_true(absolute == 1,"the boundary values themselves are applied");
    if (bc) v(1) = this->value(dirTime);
    return true;
  }
  bool assembleSystem(const TimeDomain& time, const Vectors& u, bool newLHS = true)
  {
    vc_true(absolute == 0 && rateOk,"the slopes get the rates of the boundary values");
    vc_eq(dirTime,time.t,"the boundary values are those of the time of the assembly");
    at.push_back(time.t);
    state.push_back(u.front());
    lhs.push_back(newLHS);
    modes.push_back(mode);
    if (slope)
      b.v = slope(time.t);
    return true;
  }
  bool solveSystem(Vector& x)
  {
    if (slope)
      x = b.v;
    else {
      x.resize(n);
      vc_fill(x.ptr(),n,"k");
    }
    k.push_back(x);
    return true;
  }
  void printSolutionSummary(const Vector&, int, const char*) const {}
  size_t getNoFields(int) const { return 2; }
  double solutionNorms(const Vector& v, double*, size_t*, size_t) const
  {
    Problem& p = const_cast<Problem&>(*this);
    p.error.push_back(v);
    p.est.push_back(vc_real("estimate"));
    vc_assume(est.size() > (size_t)maxEst ? est.back() >= 0.0 && est.back() <= tol : est.back() > tol);
    return est.back();
  }
  SystemVector* getRHSvector(size_t, bool copy) { return copy ? b.copy() : &b; }
  void addToRHSvector(size_t, const SystemVector& v, double s) { b.add(v,s); }
  bool hasIC(const std::string& name) const { return !names.empty() && names.find("|"+name+"|") != std::string::npos; }
  std::string names;
  bool advanceStep(TimeStep&)
  {
    for (size_t i = sol.size()-1; i > 0; i--) sol[i] = sol[i-1];
    return true;
  }
};

int Problem::msgLevel = 0;

//! A Runge-Kutta method has order p if and only if these conditions hold
void orderConditions(const Matrix& A, const RealArray& b, const RealArray& c, int p)
{
  size_t s = b.size();
  vc_eqi(c.size(),s,"number of stage times");
  vc_eqi(A.rows(),s,"rows of the tableau"); vc_eqi(A.cols(),s,"columns of the tableau");
  if (c.size() != s || A.rows() != s || A.cols() != s) return;
  RealArray Ac(s,0.0), Acc(s,0.0), AAc(s,0.0), Accc(s,0.0), AcAc(s,0.0), AAcc(s,0.0), AAAc(s,0.0);
  for (size_t i = 0; i < s; i++) {
    double r = 0.0;
    for (size_t j = 0; j < s; j++) {
      if (j >= i) vc_eq(A(i+1,j+1),0.0,"explicit method");
      r += A(i+1,j+1);
      Ac[i] += A(i+1,j+1)*c[j];
      Acc[i] += A(i+1,j+1)*c[j]*c[j];
      Accc[i] += A(i+1,j+1)*c[j]*c[j]*c[j];
    }
    vc_near(r,c[i],1e-12,"stage time is the sum of the coefficients of the stage");
  }
  for (size_t i = 0; i < s; i++)
    for (size_t j = 0; j < s; j++) {
      AAc[i] += A(i+1,j+1)*Ac[j];
      AcAc[i] += A(i+1,j+1)*c[j]*Ac[j];
      AAcc[i] += A(i+1,j+1)*Acc[j];
    }
  for (size_t i = 0; i < s; i++)
    for (size_t j = 0; j < s; j++)
      AAAc[i] += A(i+1,j+1)*AAc[j];
  auto sum = [&](const std::function<double(int)>& f) { double r = 0.0; for (size_t i = 0; i < s; i++) r += b[i]*f(i); return r; };
  const double e = 1e-12;
  vc_near(sum([&](int){ return 1.0; }),1.0,e,"order 1");
  if (p < 2) return;
  vc_near(sum([&](int i){ return c[i]; }),1.0/2,e,"order 2");
  if (p < 3) return;
  vc_near(sum([&](int i){ return c[i]*c[i]; }),1.0/3,e,"order 3");
  vc_near(sum([&](int i){ return Ac[i]; }),1.0/6,e,"order 3");
  if (p < 4) return;
  vc_near(sum([&](int i){ return c[i]*c[i]*c[i]; }),1.0/4,e,"order 4");
  vc_near(sum([&](int i){ return c[i]*Ac[i]; }),1.0/8,e,"order 4");
  vc_near(sum([&](int i){ return Acc[i]; }),1.0/12,e,"order 4");
  vc_near(sum([&](int i){ return AAc[i]; }),1.0/24,e,"order 4");
  if (p < 5) return;
  vc_near(sum([&](int i){ return c[i]*c[i]*c[i]*c[i]; }),1.0/5,e,"order 5");
  vc_near(sum([&](int i){ return c[i]*c[i]*Ac[i]; }),1.0/10,e,"order 5");
  vc_near(sum([&](int i){ return Ac[i]*Ac[i]; }),1.0/20,e,"order 5");
  vc_near(sum([&](int i){ return c[i]*Acc[i]; }),1.0/15,e,"order 5");
  vc_near(sum([&](int i){ return Accc[i]; }),1.0/20,e,"order 5");
  vc_near(sum([&](int i){ return c[i]*AAc[i]; }),1.0/30,e,"order 5");
  vc_near(sum([&](int i){ return AcAc[i]; }),1.0/40,e,"order 5");
  vc_near(sum([&](int i){ return AAcc[i]; }),1.0/60,e,"order 5");
  vc_near(sum([&](int i){ return AAAc[i]; }),1.0/120,e,"order 5");
}

//! One sweep through the stages, from the state \a u0, with the slopes from number \a k0 on
void checkStages(Problem& p, const RKTableaux& T, const Vector& u0, size_t k0, double t0, double dt)
{
  size_t s = T.b.size();
  for (size_t i = 0; i < s && k0+i < p.at.size(); i++) {
    vc_eq(p.at[k0+i],t0+dt*T.c[i],"time of the stage");
    const Vector& u = p.state[k0+i];
    vc_eqi(u.size(),p.n,"size of the stage state");
    for (size_t d = 0; d < p.n && u.size() == p.n; d++) {
      double want = u0[d];
      for (size_t j = 0; j < i; j++) want += dt*T.A(i+1,j+1)*p.k[k0+j][d];
      if (d == 0 && p.bc) want = p.value(p.at[k0+i]);
      vc_eq(u[d],want,"state of the stage");
    }
  }
}

}

CONTRACT(H_tableaus)
{
  Problem p(1,1);
  int m = vc_pick("method",0,6);
  static const Method ex[4] = { EULER, HEUN, RK3, RK4 };
  static const Method em[3] = { HEUNEULER, BOGACKISHAMPINE, FEHLBERG };
  if (m < 4) {
    SIMExplicitRK<Problem> rk(p,ex[m]);
    vc_eqi(rk.RK.order,m+1,"order of the method");
    vc_eqi(rk.RK.b.size(),m+1,"number of stages");
    orderConditions(rk.RK.A,rk.RK.b,rk.RK.c,m+1);
    vc_eqi(TimeIntegration::Order(ex[m]),m+1,"order of the method");
    vc_eqi(TimeIntegration::Steps(ex[m]),1,"one-step method");
  }
  else {
    SIMExplicitRKE<Problem> rk(p,em[m-4],0.1);
    int order = m == 4 ? 1 : m == 5 ? 2 : 4;
    vc_eqi(rk.RK.order,order,"order of the embedded method");
    orderConditions(rk.RK.A,rk.RK.b,rk.RK.c,order);
    orderConditions(rk.RK.A,rk.bs,rk.RK.c,order+1); // the reference for the error is one order better
    vc_eqi(TimeIntegration::Steps(em[m-4]),1,"one-step method");
  }
}

CONTRACT(H_runge_kutta)
{
  static const Method ex[4] = { EULER, HEUN, RK3, RK4 };
  int m = vc_pick("method",0,3), linear = vc_pick("linear",0,1);
  Problem p(vc_pick("ndof",1,2),1);
  p.bc = vc_pick("prescribed",0,1);
  TimeStep tp;
  tp.step = vc_pick("step",1,2);
  tp.time.t = vc_real("t");
  double dt = tp.time.dt = vc_real("dt"), t1 = tp.time.t;
  vc_assume(dt > 0.0);
  Vector u0(p.sol[0]);
  SIMExplicitRK<Problem> rk(p,ex[m],vc_pick("alone",0,1));
  if (linear) rk.setLinear(true);
  vc_true(rk.solveStep(tp),"step done");
  vc_eqi(p.nInit,1,"boundary values initialised once");
  vc_eqi(p.at.size(),m+1,"one assembly for each stage");
  vc_eqi(p.k.size(),m+1,"one solution for each stage");
  vc_eq(p.initTime,t1,"boundary values initialised for the end of the step");
  if (p.k.size() != (size_t)m+1 || p.at.size() != (size_t)m+1) return;
  checkStages(p,rk.RK,u0,0,t1-dt,dt);
  for (size_t d = 0; d < p.n; d++) {
    double want = u0[d];
    for (int i = 0; i <= m; i++) want += dt*rk.RK.b[i]*p.k[i][d];
    if (d == 0 && p.bc) want = p.value(t1);
    vc_eq(p.sol[0][d],want,"weighted sum of the slopes, and the boundary values at the end of the step");
  }
  for (int i = 0; i <= m; i++) {
    vc_true(p.lhs[i] == (!linear || (tp.step == 1 && i == 0)),"the left-hand side is assembled once for linear problems, else always");
    vc_eqi(p.modes[i],linear && i > 0 ? SIM::RHS_ONLY : SIM::DYNAMIC,"mode of the assembly");
  }
  vc_eq(tp.time.t,t1,"the time is left alone"); vc_eq(tp.time.dt,dt,"the step size is left alone");
}

//! The step size is reduced until the error estimate is below the tolerance
CONTRACT(H_embedded)
{
  static const Method em[3] = { HEUNEULER, BOGACKISHAMPINE, FEHLBERG };
  int m = vc_pick("method",0,vc_thorough() ? 2 : 1), cuts = vc_pick("cut-backs",0,2);
  Problem p(1,1);
  p.bc = vc_pick("prescribed",0,1);
  double tol = vc_real("tolerance");
  vc_assume(tol > 0.0 && tol < 1.0);
  TimeStep tp;
  tp.step = 1;
  double t0 = vc_real("t0"), dt = tp.time.dt = vc_real("dt"), dtMin = tp.dtMin = vc_real("dtMin");
  vc_assume(dt > 0.0 && dtMin > 0.0 && dt > 8.0*dtMin);
  tp.f2 = 0.5;
  tp.time.t = t0+dt;
  Vector u0(p.sol[0]);
  SIMExplicitRKE<Problem> rk(p,em[m],tol);
  size_t s = rk.RK.b.size();
  p.maxEst = cuts; p.tol = tol;
  bool ok = rk.solveStep(tp);
  vc_true(ok,"step done");
  vc_eqi(p.est.size(),cuts+1,"the error is estimated for each attempt");
  if (!ok || p.est.size() != (size_t)cuts+1 || p.k.size() != s*(cuts+1)) { vc_true(false,"one sweep through the stages for each attempt"); return; }
  double h = dt;
  for (int c = 0; c <= cuts; c++, h *= 0.5) {
    checkStages(p,rk.RK,u0,s*c,t0,h);
    double e = u0[0], u = u0[0];
    for (size_t i = 0; i < s; i++) {
      e += h*rk.bs[i]*p.k[s*c+i][0];
      u += h*rk.RK.b[i]*p.k[s*c+i][0];
    }
    if (p.bc) e = u = p.value(t0+h);
    vc_eq(p.error[c][0],e-u,"the error estimate is the difference to the better method");
    if (c == cuts) {
      vc_eq(p.sol[0][0],u,"the solution is that of the last attempt");
      vc_eq(tp.time.t,t0+h,"time at the end of the step");
      vc_eq(tp.time.dt,p.est[c] > 0.0 ? h*pow(tol/p.est[c],1.0/(rk.RK.order+1)) : h,"the next step size follows from the estimate");
    }
  }
  vc_cover("embedded method");
}

namespace {
//! A polynomial in time with arbitrary coefficients for each degree of freedom
struct Poly
{
  std::vector< std::vector<double> > a;
  Poly(size_t n, int deg) : a(n)
  {
    for (auto& c : a) for (int i = 0; i <= deg; i++) c.push_back(vc_real("a"));
  }
  Vector operator()(double t) const
  {
    Vector v(a.size());
    for (size_t d = 0; d < a.size(); d++)
      for (size_t i = a[d].size(); i > 0; i--) v[d] = v[d]*t + a[d][i-1];
    return v;
  }
  double integral(size_t d, double t0, double t1) const
  {
    double s0 = 0.0, s1 = 0.0;
    for (size_t i = a[d].size(); i > 0; i--) { s0 = (s0 + a[d][i-1]/i)*t0; s1 = (s1 + a[d][i-1]/i)*t1; }
    return s1-s0;
  }
};
}

//! An Adams-Bashforth method is defined by being exact for polynomial slopes of degree below the order
CONTRACT(H_adams_bashforth)
{
  static const Method ab[5] = { AB1, AB2, AB3, AB4, AB5 };
  int order = vc_pick("order",1,5), deg = vc_pick("degree",0,4), ics = vc_pick("initial-conditions",0,1), linear = vc_pick("linear",0,1);
  vc_assume(deg < order);
  vc_eqi(TimeIntegration::Order(ab[order-1]),order,"order of the method");
  vc_eqi(TimeIntegration::Steps(ab[order-1]),order,"number of steps of the method");
  Problem p(1,order > 2 ? order : 2);
  p.bc = false;
  for (int j = 2; ics && j <= order; j++) p.names += "|u"+std::to_string(j)+"|";
  Poly f(1,deg);
  p.slope = [&](double t) { return f(t); };
  SIMExplicitLMM<Problem> lmm(p,ab[order-1],false,"u");
  if (linear) lmm.setLinear(true);
  TimeStep tp;
  double dt = tp.time.dt = 0.5, t = 0.0;
  for (tp.step = 1; tp.step <= order+1; tp.step++) {
    tp.time.t = t = dt*tp.step;
    vc_true(lmm.advanceStep(tp),"advanced");
    double u0 = p.sol[1][0];
    size_t n0 = p.at.size();
    vc_true(lmm.solveStep(tp),"step done");
    vc_eqi(p.at.size(),n0+1,"one assembly for each step");
    vc_eq(p.at[n0],t-dt,"the slope is that of the start of the step");
    vc_eq(p.state[n0][0],u0,"the slope is that of the solution at the start of the step");
    vc_true(p.lhs[n0] == (!linear || tp.step == 1),"the left-hand side is assembled once for linear problems, else always");
    if (ics || deg < tp.step)
      vc_near(p.sol[0][0]-u0,f.integral(0,t-dt,t),1e-6,"exact for polynomial slopes of degree below the order");
  }
  vc_cover("Adams-Bashforth");
}
