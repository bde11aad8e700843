// VC-TU: src/SIM/NonLinSIM.C src/SIM/MultiStepSIM.C src/SIM/SIMsolution.C src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/SIM/TimeStep.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/ASM/AlgEqSystem.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/LinAlg/SAM.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C Apps/Utils/TimeIntUtils.C
// VC-INCLUDE: sam.inc
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 150
// VC-ASSUME: the semi-discrete problem of the implicit multistep methods has the identity as mass matrix and slopes that depend on the time only; its equation solver is exact
#include "vc.h"
#include "sam.inc"
#include "NonLinSIM.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "TimeStep.h"
#include "AlgEqSystem.h"
#include "SystemMatrix.h"
#include "IntegrandBase.h"
#include "IFEM.h"
#include "Profiler.h"
#include "SIMImplicitLMM.h"
#include <iostream>
#include <string>
#include <cmath>

SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

using namespace TimeIntegration;

namespace {

class Prob : public IntegrandBase
{
public:
  int mode = -1;
  Prob() : IntegrandBase(1) {}
  virtual void setMode(SIM::SolutionMode m) { mode = m; }
};

//! The identity
class Solver : public SystemMatrix
{
public:
  size_t n;
  explicit Solver(size_t ndim) : n(ndim) { nonZeroEqs = {true}; }
  virtual LinAlg::MatrixType getType() const { return LinAlg::DENSE; }
  virtual SystemMatrix* copy() const { return nullptr; }
  virtual size_t dim(int) const { return n; }
  virtual void initAssembly(const SAM&, char) {}
  virtual void init() {}
  virtual bool assemble(const Matrix&, const SAM&, int) { return true; }
  virtual bool assemble(const Matrix&, const SAM&, SystemVector&, int) { return true; }
  virtual bool assemble(const Matrix&, const SAM&, SystemVector&, const IntVec&) { return true; }
  virtual bool assemble(const Matrix&, const IntVec&) { return true; }
  virtual void mult(Real) {}
  virtual Real Linfnorm() const { return 1.0; }
  virtual bool solve(SystemVector&, Real*) { return true; }
};

TModel oneNode(size_t n)
{
  TModel m;
  m.nd = { (int)n };
  m.kind.assign(n,'1');
  m.elems = { {1} };
  m.derive();
  return m;
}

//! u' = f(t), with the residual s*f(t) - (u - u_prev)
class Model : public SIMdummy<SIMgeneric>
{
public:
  Prob* prob = new Prob; // owned by the base class
  TModel tm;
  size_t n;
  Vectors sol;
  std::string names;
  std::vector<double> a;                // coefficients of the slope
  double scale = 1.0;
  int nIter = 0, failAt = -1, nAssem = 0;
  std::vector<double> at, of, sc;       // time, state and scale of the slopes evaluated for later steps

  Model(size_t ndof, size_t nsol) : tm(oneNode(ndof)), n(ndof), sol(nsol)
  {
    for (Vector& s : sol) { s.resize(n); vc_fill(s.ptr(),n,"u"); }
    myProblem = prob;
    mySam = new TSam(tm);
    myEqSys = new AlgEqSystem(*mySam);
    myEqSys->A.resize(1);
    myEqSys->A.front()._A = new Solver(n);
    myEqSys->A.front()._b = new StdVector(n);
    myEqSys->b.push_back(myEqSys->A.front()._b);
  }
  double f(double t) const { double r = 0.0; for (size_t i = a.size(); i > 0; i--) r = r*t + a[i-1]; return r; }
  double integral(double t0, double t1) const
  {
    double s0 = 0.0, s1 = 0.0;
    for (size_t i = a.size(); i > 0; i--) { s0 = (s0 + a[i-1]/i)*t0; s1 = (s1 + a[i-1]/i)*t1; }
    return s1-s0;
  }
  Vector& getSolution(int i = 0) { return sol[i]; }
  void setTimeScale(double s) { scale = s; }
  bool hasIC(const std::string& nam) const override { return names.find("|"+nam+"|") != std::string::npos; }
  bool advanceStep(TimeStep&)
  {
    for (size_t i = sol.size()-1; i > 0; i--) sol[i] = sol[i-1];
    return true;
  }
  bool updateDirichlet(double, const Vector*, bool) override { return true; }
  bool updateConfiguration(const Vector&) override { return true; }
  bool assembleSystem(const TimeDomain& time, const Vectors& u, bool = true, bool = false) override
  {
    if (u.size() > 1 && nAssem++ == failAt)
      return false;
    if (u.size() == 1) {
      at.push_back(time.t);
      of.push_back(u.front()[0]);
      sc.push_back(scale);
    }
    Real* b = myEqSys->b.front()->getPtr();
    for (size_t i = 0; i < n; i++)
      b[i] = scale*this->f(time.t) - (u.size() > 1 ? u[0][i]-u[1][i] : 0.0);
    return true;
  }
  void iterationNorms(const Vector&, const Vector&, double& e, double& r, double& d) const override
  {
    Model& m = const_cast<Model&>(*this);
    e = r = d = m.nIter++ ? 0.0 : 1.0; // the exact solver needs one iteration
  }
};

}

//! An Adams-Moulton method is defined by being exact for polynomial slopes of degree below the order
CONTRACT(H_adams_moulton)
{
  static const Method am[4] = { AM1, AM2, AM3, AM4 };
  int order = vc_pick("order",1,4), deg = vc_pick("degree",0,3), ics = vc_pick("initial-conditions",0,1);
  vc_assume(deg < order);
  vc_eqi(TimeIntegration::Order(am[order-1]),order,"order of the method");
  Model p(1,order > 2 ? order : 2);
  for (int j = 2; ics && j <= order; j++) p.names += "|u"+std::to_string(j)+"|";
  for (int i = 0; i <= deg; i++) p.a.push_back(vc_real("a"));
  SIMImplicitLMM<Model> lmm(p,am[order-1],false,"u");
  lmm.nSim.msgLevel = -1;
  Model::msgLevel = -1;
  TimeStep tp;
  double dt = tp.time.dt = 0.5, t = 0.0;
  for (tp.step = 1; tp.step <= order+1; tp.step++) {
    tp.time.t = t = dt*tp.step;
    vc_true(lmm.advanceStep(tp),"advanced");
    double u0 = p.sol[0][0];
    p.nIter = 0;
    size_t n0 = p.at.size();
    vc_true(lmm.solveStep(tp),"step done");
    if (p.at.size() != n0+1) { vc_true(false,"the slope at the end of the step is kept for later steps"); return; }
    vc_eq(p.at[n0],t,"the slope kept is that of the end of the step");
    vc_eq(p.of[n0],p.sol[0][0],"the slope kept is that of the new solution");
    vc_eq(p.sc[n0],1.0,"the slope kept is not scaled");
    if (ics || deg < tp.step)
      vc_near(p.sol[0][0]-u0,p.integral(t-dt,t),1e-6,"exact for polynomial slopes of degree below the order");
  }
  vc_cover("Adams-Moulton");
}

//! A step that fails leaves the integrator in a valid state
CONTRACT(H_adams_moulton_failure)
{
  static const Method am[4] = { AM1, AM2, AM3, AM4 };
  int order = vc_pick("order",1,4), nOk = vc_pick("good-steps",0,3);
  Model p(1,order > 2 ? order : 2);
  p.a = { vc_real("a") };
  {
    SIMImplicitLMM<Model> lmm(p,am[order-1],false,"u");
    lmm.nSim.msgLevel = -1;
    Model::msgLevel = -1;
    TimeStep tp;
    tp.time.dt = 0.5;
    for (tp.step = 1; tp.step <= nOk; tp.step++) {
      tp.time.t = 0.5*tp.step;
      vc_true(lmm.advanceStep(tp),"advanced");
      p.nIter = 0;
      vc_true(lmm.solveStep(tp),"step done");
    }
    vc_true(lmm.advanceStep(tp),"advanced");
    p.failAt = p.nAssem;
    vc_true(!lmm.solveStep(tp),"the failure is reported");
  }
  vc_cover("failing step");
}
