// VC-TU: src/SIM/NewmarkSIM.C src/SIM/NonLinSIM.C src/SIM/MultiStepSIM.C src/SIM/SIMsolution.C src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/SIM/TimeStep.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/ASM/AlgEqSystem.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/LinAlg/SAM.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-INCLUDE: sam.inc
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 250
// VC-ASSUME: the assembly of the equations, the equation solver and (except in H_iteration_norms) the iteration norms are replaced by arbitrary results
#include "vc.h"
#include "sam.inc"
#include "NewmarkSIM.h"
#include "NonLinSIM.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "TimeStep.h"
#include "AlgEqSystem.h"
#include "SystemMatrix.h"
#include "IntegrandBase.h"
#include "IFEM.h"
#include "Profiler.h"
#include <iostream>
#include <string>
#include <cmath>

SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

//! Remembers the mode the integrand is set to
class Prob : public IntegrandBase
{
public:
  int mode = -1;
  Prob() : IntegrandBase(1) {}
  virtual void setMode(SIM::SolutionMode m) { mode = m; }
};

//! An equation solver with arbitrary results, remembering them
class Solver : public SystemMatrix
{
public:
  size_t n;
  const char* tag;
  std::vector<Vector> sol;
  Solver(size_t ndim, const char* t) : n(ndim), tag(t) { nonZeroEqs = {true}; }
  virtual LinAlg::MatrixType getType() const { return LinAlg::DENSE; }
  virtual SystemMatrix* copy() const { return nullptr; }
  virtual size_t dim(int) const { return n; }
  virtual void initAssembly(const SAM&, char) {}
  virtual void init() {}
  virtual bool assemble(const Matrix&, const SAM&, int) { return true; }
  virtual bool assemble(const Matrix&, const SAM&, SystemVector&, int) { return true; }
  virtual bool assemble(const Matrix&, const SAM&, SystemVector&, const IntVec&) { return true; }
  virtual bool assemble(const Matrix&, const IntVec&) { return true; }
  virtual void mult(Real) {}
  virtual Real Linfnorm() const { return 1.0; }
  virtual bool solve(SystemVector& b, Real*)
  {
    Vector u(n);
    for (size_t i = 0; i < n; i++)
      b.getPtr()[i] = u[i] = vc_real(tag);
    sol.push_back(u);
    return true;
  }
};

static TModel oneNode(size_t n)
{
  TModel m;
  m.nd = { (int)n };
  m.kind.assign(n,'1');
  m.elems = { {1} };
  m.derive();
  return m;
}

//! A simulator with an arbitrary assembly, remembering what it is asked for
class Model : public SIMdummy<SIMgeneric>
{
public:
  Prob* prob = new Prob; // owned by the base class
  TModel tm;
  Solver* lhs;
  size_t n;
  const char* tag;
  std::vector<Vector> state, res;      // the state and the residual of each assembly
  std::vector<int> tangent, mode;      // the requested tangent and the integrand mode of each assembly
  std::vector<double> enorm, rnorm, dnorm;
  std::vector<Vector> normU, normR;    // what the norms were taken of
  Vector conf;
  int nDir = 0, nDirIncr = 0, nConf = 0;

  Model(size_t ndof, const char* t) : tm(oneNode(ndof)), n(ndof), tag(t)
  {
    myProblem = prob;
    mySam = new TSam(tm);
    myEqSys = new AlgEqSystem(*mySam);
    myEqSys->A.resize(1);
    myEqSys->A.front()._A = lhs = new Solver(n,t);
    myEqSys->A.front()._b = new StdVector(n);
    myEqSys->b.push_back(myEqSys->A.front()._b);
  }
  virtual bool updateDirichlet(double, const Vector* prev, bool) { ++(prev ? nDir : nDirIncr); return true; }
  virtual bool updateConfiguration(const Vector& u) { conf = u; ++nConf; return true; }
  virtual bool assembleSystem(const TimeDomain&, const Vectors& u, bool newLHS, bool)
  {
    state.push_back(u.front());
    tangent.push_back(newLHS);
    mode.push_back(prob->mode);
    Vector r(n);
    for (size_t i = 0; i < n; i++)
      myEqSys->b.front()->getPtr()[i] = r[i] = vc_real("res");
    res.push_back(r);
    return true;
  }
  virtual void iterationNorms(const Vector& u, const Vector& r, double& e, double& rn, double& dn) const
  {
    Model& m = const_cast<Model&>(*this);
    m.normU.push_back(u); m.normR.push_back(r);
    m.enorm.push_back(e = vc_real("enorm"));
    m.rnorm.push_back(rn = vc_real("rnorm"));
    m.dnorm.push_back(dn = vc_real("dnorm"));
    vc_assume(rn >= 0.0 && dn >= 0.0);
  }
  void checkConf(const Vector& u)
  {
    vc_true(conf.size() == u.size(),"the model is updated");
    for (size_t i = 0; i < u.size() && i < conf.size(); i++)
      vc_eq(conf[i],u[i],"the model configuration is the one of the solution");
  }
};

//! What the criterion says about the sequence of norms of one step
struct Criterion
{
  bool first = true, all = false;
  double ref = 0.0, rTol, aTol, divg, tol = 0.0;
  int maxIncr;
  std::vector<double> val;   // norm values in the unit the tolerance applies to
  //! Adds the norm of the next iteration
  void add(double nrm)
  {
    double a = fabs(nrm);
    if (val.empty())
    {
      if (all && first) ref = a;
      else if (a > ref) ref = a;
      if (ref*rTol > aTol) tol = rTol;
      else { tol = aTol; ref = 1.0; }
    }
    val.push_back(a/ref);
  }
  bool met(bool force = false) const { return val.back() < tol && (val.size() > 1 || all || force); }
  //! More increases since the norm decreased than allowed, or an increase beyond the limit
  bool tooMuch() const
  {
    int inc = 0;
    for (size_t i = 1; i < val.size(); i++)
      inc = val[i] > val[i-1] ? inc+1 : 0;
    size_t k = val.size()-1;
    return k > 0 && val[k] > val[k-1] && (inc > maxIncr || val[k] > divg);
  }
};

template<class Sim> static double pickedNorm(const Sim& s, const Model& m, size_t i);
template<> double pickedNorm(const NewmarkSIM& s, const Model& m, size_t i)
{
  return s.cNorm == 0 ? m.enorm[i] : (s.cNorm == 1 ? m.rnorm[i] : m.dnorm[i]);
}
template<> double pickedNorm(const NonLinSIM& s, const Model& m, size_t i)
{
  return s.iteNorm == NonLinSIM::ENERGY ? m.enorm[i] : (s.iteNorm == NonLinSIM::L2 ? m.rnorm[i] : m.dnorm[i]);
}

//! What the previous step has left behind
static void leftOver(MultiStepSIM& s) { s.convTol = 0.75; s.prevNorm = 0.125; s.nIncrease = 1; s.linsol.resize(3); s.linsol.fill(0.5); s.residual = s.linsol; }
static void leftOver(NonLinSIM& s) { leftOver((MultiStepSIM&)s); s.alpha = 0.25; s.alphaO = 1.25; }

template<class Sim> static Criterion setup(Sim& s, int maxit)
{
  leftOver(s);
  Criterion c;
  s.msgLevel = -2;
  s.maxit = maxit;
  s.nupdat = maxit;
  c.rTol = s.rTol = vc_real("rTol");
  c.aTol = s.aTol = vc_real("aTol");
  c.divg = s.divgLim = vc_real("divgLim");
  c.ref  = s.refNorm = vc_real("refNorm");
  c.maxIncr = s.maxIncr;
  vc_assume(c.rTol > 0.0 && c.aTol >= 0.0 && c.divg > 0.0 && c.ref >= 0.0);
  return c;
}

//! Checks the outcome of a step against the norms of its iterations
template<class Sim>
static void verdict(const Sim& s, Model& m, Criterion& c, SIM::ConvStatus stat, int maxit)
{
  size_t n = m.dnorm.size();
  vc_true(n > 0,"the convergence is checked");
  if (n == 0) return;
  for (size_t k = 0; k < n; k++)
  {
    vc_true(m.normU[k].size() == m.n && m.normR[k].size() == m.n,"norms of the last increment and residual");
    for (size_t i = 0; i < m.n && i < m.normU[k].size() && i < m.normR[k].size(); i++)
    {
      vc_eq(m.normU[k][i],m.lhs->sol[k][i],"norms of the last increment");
      vc_eq(m.normR[k][i],m.res[k][i],"norms of the last residual");
    }
  }
  vc_true((int)n <= maxit+1,"no more iterations than allowed");
  vc_true(stat == SIM::CONVERGED || stat == SIM::DIVERGED,"the step ends as converged or diverged");
  if (m.dnorm[0] == 0.0)
  {
    vc_true(n == 1 && stat == SIM::CONVERGED,"no increment: converged without iterations");
    return;
  }
  for (size_t k = 0; k+1 < n; k++)
  {
    c.add(pickedNorm(s,m,k));
    vc_true(!c.met(),"the iterations end when the criterion is met");
    vc_true(!c.tooMuch(),"the iterations end when they diverge");
  }
  c.add(pickedNorm(s,m,n-1));
  if (stat == SIM::CONVERGED)
    vc_true(c.met(),"converged: the criterion is met");
  else
  {
    vc_true(!c.met(),"diverged: the criterion is not met");
    vc_true(c.tooMuch() || (int)n == maxit+1,"diverged: the norm has increased too much or the iterations are used up");
  }
}

template<class Sim> static void solveStep(Sim& s, Model& m, Criterion& c, int maxit, int firstMode)
{
  TimeStep tp;
  tp.step = 1;
  tp.time.t = 1.0;
  tp.time.dt = vc_real("dt");
  vc_assume(tp.time.dt > 0.0);
  bool first = tp.time.first = vc_pick("first",0,1);
  int nup = s.nupdat;
  Vector d0 = s.solution.front();
  SIM::ConvStatus stat = s.solveStep(tp,SIM::STATIC);
  verdict(s,m,c,stat,maxit);
  size_t n = m.dnorm.size();
  // when the iterations are used up, one more assembly has been done
  size_t extra = stat == SIM::DIVERGED && (int)n == maxit+1 && !c.tooMuch() ? 1 : 0;
  vc_true(m.res.size() == n+extra && m.lhs->sol.size() == n+extra,"one assembly and one solution for each convergence check");
  for (size_t k = 0; k < n+extra && k < m.tangent.size(); k++)
  {
    bool newT = k == 0 ? first || nup > 0 || firstMode == SIM::STATIC : (int)k <= nup;
    vc_eqi(m.tangent[k],newT,"a new tangent in the prescribed iterations");
    vc_eqi(m.mode[k],newT ? firstMode : SIM::RHS_ONLY,"the mode matches the requested tangent");
  }
  vc_eqi(m.nDir,s.subiter & MultiStepSIM::FIRST ? 1 : 0,"the prescribed values are updated once in the first sub-iteration");
  vc_eqi(m.nDirIncr,(s.subiter & MultiStepSIM::FIRST) && n+extra > 1 ? 1 : 0,"no further prescribed increments after the first iteration");
  m.checkConf(s.solution.front());
}

CONTRACT(H_newmark_solvestep)
{
  int maxit = vc_pick("maxit",0,vc_thorough() ? 3 : 2);
  Model m(1,"u");
  NewmarkSIM s(m);
  s.initSol(3,1);
  s.maxIncr = vc_pick("maxIncr",0,1);
  Criterion c = setup(s,maxit);
  s.refNopt = vc_pick("always",0,1) ? MultiStepSIM::ALL : MultiStepSIM::MAX;
  c.all = s.refNopt == MultiStepSIM::ALL;
  solveStep(s,m,c,maxit,SIM::DYNAMIC);
}

CONTRACT(H_newmark_solvestep_options)
{
  int var = vc_pick("option",0,7); // three norms, two tangent update limits, three sub-iteration flags
  const int maxit = var < 3 ? 1 : 2;
  Model m(1,"u");
  NewmarkSIM s(m);
  s.initSol(3,1);
  Criterion c = setup(s,maxit);
  c.aTol = s.aTol = 0.0;
  if (var < 3) s.cNorm = var;
  else if (var < 5) s.nupdat = var-3;
  else { s.subiter = (MultiStepSIM::SubIt)(var-5); c.first = (var-5) & 1; }
  s.refNopt = var > 4 && vc_pick("always",0,1) ? MultiStepSIM::ALL : MultiStepSIM::MAX;
  c.all = s.refNopt == MultiStepSIM::ALL;
  solveStep(s,m,c,maxit,SIM::DYNAMIC);
}

//! Every computed increment enters the state exactly once
CONTRACT(H_newmark_state)
{
  const int maxit = 2;
  Model m(vc_pick("ndof",1,2),"u");
  NewmarkSIM s(m);
  s.initSol(3,m.n);
  for (int k = 0; k < 3; k++) vc_fill(s.solution[k].ptr(),m.n,"old");
  Vectors old(s.solution);
  Criterion c = setup(s,maxit);
  s.beta = vc_real("beta"); s.gamma = vc_real("gamma");
  s.solveDisp = vc_pick("disp",0,1);
  vc_assume(s.beta > 0.0 && s.gamma > 0.0);
  TimeStep tp;
  tp.step = 1;
  tp.time.t = 1.0;
  double dt = tp.time.dt = vc_real("dt");
  vc_assume(dt > 0.0);
  SIM::ConvStatus stat = s.solveStep(tp);
  vc_true(stat == SIM::CONVERGED || stat == SIM::DIVERGED,"the step ends as converged or diverged");
  size_t n = m.dnorm.size(), used = stat == SIM::CONVERGED ? n : m.lhs->sol.size();
  if (stat == SIM::DIVERGED && (int)n <= maxit) used = n-1; // not applied when the divergence is detected
  else if (stat == SIM::DIVERGED) { vc_stop(); return; }
  for (size_t i = 0; i < m.n; i++)
  {
    double u = 0.0;
    for (size_t k = 0; k < used; k++) u += m.lhs->sol[k][i];
    double da = s.solveDisp ? u/(s.beta*dt*dt) : u; // acceleration change from the zero acceleration predictor
    vc_eq(s.solution[2][i],da,"the acceleration contains every increment once");
    vc_eq(s.solution[1][i],old[1][i]+dt*((1.0-s.gamma)*old[2][i]+s.gamma*da),"velocity at the end of the step");
    vc_eq(s.solution[0][i],old[0][i]+dt*old[1][i]+dt*dt*((0.5-s.beta)*old[2][i]+s.beta*da),"displacement at the end of the step");
  }
  for (size_t k = 0; k < m.state.size(); k++)
    for (size_t i = 0; i < m.n; i++)
    {
      double u = 0.0;
      for (size_t j = 0; j < k; j++) u += m.lhs->sol[j][i];
      if (!s.solveDisp) u *= s.beta*dt*dt;
      vc_eq(m.state[k][i],old[0][i]+dt*old[1][i]+dt*dt*(0.5-s.beta)*old[2][i]+u,"each iteration is assembled for the state reached so far");
    }
  if (stat == SIM::CONVERGED) vc_true(!tp.time.first,"the step is completed");
}

CONTRACT(H_nonlin_solvestep)
{
  int maxit = vc_pick("maxit",0,vc_thorough() ? 3 : 2);
  Model m(1,"u");
  NonLinSIM s(m,NonLinSIM::L2);
  s.initSol(1,1);
  s.solution.front()[0] = vc_real("d0");
  s.maxIncr = vc_pick("maxIncr",0,1);
  Criterion c = setup(s,maxit);
  s.refNopt = vc_pick("always",0,1) ? MultiStepSIM::ALL : MultiStepSIM::MAX;
  c.all = s.refNopt == MultiStepSIM::ALL;
  solveStep(s,m,c,maxit,SIM::STATIC);
}

CONTRACT(H_nonlin_solvestep_options)
{
  int var = vc_pick("option",0,6); // three norms, one tangent update limit, three sub-iteration flags
  const int maxit = var < 3 ? 1 : 2;
  Model m(1,"u");
  NonLinSIM s(m,(NonLinSIM::CNORM)(var < 3 ? var+1 : 1));
  s.initSol(1,1);
  s.solution.front()[0] = vc_real("d0");
  Criterion c = setup(s,maxit);
  c.aTol = s.aTol = 0.0;
  if (var == 3) s.nupdat = 1;
  if (var > 3) { s.subiter = (MultiStepSIM::SubIt)(var-4); c.first = (var-4) & 1; }
  s.refNopt = var > 3 && vc_pick("always",0,1) ? MultiStepSIM::ALL : MultiStepSIM::MAX;
  c.all = s.refNopt == MultiStepSIM::ALL;
  s.fromIni = vc_pick("fromZero",0,1);
  double d0 = s.fromIni ? 0.0 : s.solution.front()[0];
  TimeStep tp;
  tp.step = 1;
  tp.time.t = 1.0;
  SIM::ConvStatus stat = s.solveStep(tp,SIM::STATIC);
  verdict(s,m,c,stat,maxit);
  size_t n = m.dnorm.size();
  size_t used = stat == SIM::DIVERGED && (int)n <= maxit ? n-1 : n;
  double d = d0;
  for (size_t k = 0; k < m.state.size() && k < m.lhs->sol.size(); k++)
  {
    vc_eq(m.state[k][0],d,"each iteration is assembled for the state reached so far");
    vc_eqi(m.tangent[k],(int)k <= s.nupdat,"a new tangent in the prescribed iterations");
    if (k < used) d += m.lhs->sol[k][0];
  }
  if (stat == SIM::CONVERGED) {
    vc_eq(s.solution.front()[0],d,"the solution contains every increment once");
    m.checkConf(s.solution.front());
    vc_true(!tp.time.first,"the step is completed");
  }
}

//! A linear problem is solved without iterations
CONTRACT(H_linear_solvestep)
{
  Model m(2,"u");
  NonLinSIM s(m,vc_pick("norm",0,1) ? NonLinSIM::NONE : NonLinSIM::NONE_UPTAN);
  s.msgLevel = -2;
  leftOver(s);
  s.initSol(1,2);
  vc_fill(s.solution.front().ptr(),2,"old");
  TimeStep tp;
  tp.step = 1;
  tp.time.t = 1.0;
  bool first = tp.time.first = vc_pick("first",0,1);
  vc_true(s.solveStep(tp,SIM::STATIC) == SIM::CONVERGED,"converged");
  vc_true(m.res.size() == 1 && m.lhs->sol.size() == 1,"solved once");
  vc_eqi(m.tangent[0],first || s.iteNorm != NonLinSIM::NONE,"the matrix is assembled in the first step, and when requested");
  for (int i = 0; i < 2; i++)
    vc_eq(s.solution.front()[i],m.lhs->sol[0][i],"the solution is the one of the equation system");
  m.checkConf(s.solution.front());
}

//! Two simulators iterating in turn do not influence each other
template<class Sim> static void twoSims(Sim& a, Sim& b, Model& ma, Model& mb)
{
  Criterion ca = setup(a,5), cb = setup(b,5);
  TimeStep ta, tb;
  ta.step = tb.step = 1;
  ta.time.t = tb.time.t = 1.0;
  for (int k = 0; k < 2; k++)
  {
    ta.iter = tb.iter = k;
    SIM::ConvStatus sa = a.solveIteration(ta);
    SIM::ConvStatus sb = b.solveIteration(tb);
    if (ma.dnorm[0] == 0.0 || mb.dnorm[0] == 0.0) { vc_stop(); return; }
    ca.add(pickedNorm(a,ma,k)); cb.add(pickedNorm(b,mb,k));
    vc_true((sa == SIM::CONVERGED) == ca.met(),"first simulator: converged when its own criterion is met");
    vc_true((sb == SIM::CONVERGED) == cb.met(),"second simulator: converged when its own criterion is met");
    vc_true((sa == SIM::DIVERGED) == (!ca.met() && ca.tooMuch()),"first simulator: diverged when its own norms increase too much");
    vc_true((sb == SIM::DIVERGED) == (!cb.met() && cb.tooMuch()),"second simulator: diverged when its own norms increase too much");
  }
}

CONTRACT(H_newmark_coupled)
{
  Model ma(1,"ua"), mb(1,"ub");
  NewmarkSIM a(ma), b(mb);
  a.initSol(3,1); b.initSol(3,1);
  a.maxIncr = b.maxIncr = 0;
  twoSims(a,b,ma,mb);
}

CONTRACT(H_nonlin_coupled)
{
  Model ma(1,"ua"), mb(1,"ub");
  NonLinSIM a(ma,NonLinSIM::L2), b(mb,NonLinSIM::ENERGY);
  a.initSol(1,1); b.initSol(1,1);
  a.maxIncr = b.maxIncr = 0;
  twoSims(a,b,ma,mb);
}

//! The line search stops at a step length it has evaluated
CONTRACT(H_linesearch)
{
  Model m(1,"u");
  NonLinSIM s(m,NonLinSIM::L2);
  s.initSol(1,1);
  double d0 = s.solution.front()[0] = vc_real("d0");
  s.eta = vc_real("eta");
  vc_assume(s.eta > 0.0 && s.eta < 1.0);
  s.linsol.resize(1); s.residual.resize(1);
  double u = s.linsol[0] = vc_real("u");
  double r0 = s.residual[0] = vc_real("r0");
  vc_assume(u != 0.0 && r0 != 0.0);
  TimeStep tp;
  tp.step = 1;
  tp.iter = 2;
  // the first two trial steps are arbitrary, the third is accepted
  struct Script : public Model
  {
    double r0;
    Script() : Model(1,"u") {}
    virtual bool assembleSystem(const TimeDomain& t, const Vectors& v, bool l, bool p)
    {
      Model::assembleSystem(t,v,l,p);
      if (res.size() > 2) myEqSys->b.front()->getPtr()[0] = res.back()[0] = 0.0;
      else vc_assume(r0 != res.back()[0]);
      return true;
    }
  } sc;
  sc.r0 = r0;
  NonLinSIM l(sc,NonLinSIM::L2);
  l.initSol(1,1);
  l.solution = s.solution; l.linsol = s.linsol; l.residual = s.residual; l.eta = s.eta;
  vc_true(l.lineSearch(tp),"the line search is completed");
  vc_true(l.updateConfiguration(tp),"the update is completed");
  double d = l.solution.front()[0];
  size_t n = sc.state.size();
  vc_true(n >= 1 && n <= 3,"the line search stops when it is accurate enough");
  if (n < 1 || n > 3) return;
  vc_eq(sc.state[0][0],d0+u,"the first trial is the full step");
  for (size_t k = 1; k < n; k++)
  {
    vc_le(0.5*u*u,(sc.state[k][0]-d0)*u,"no trial step is shorter than half the step");
    vc_le((sc.state[k][0]-d0)*u,1.5*u*u,"no trial step is longer than one and a half step");
  }
  vc_eq(d,sc.state[n-1][0],"the configuration is the one evaluated last");
  for (size_t k = 0; k+1 < n; k++)
    vc_le(l.eta*fabs(r0*u),fabs(sc.res[k][0]*u),"the search is not continued after a trial within the tolerance");
  for (size_t k = 0; k < n; k++)
    vc_eqi(sc.tangent[k],0,"no new tangent in the line search");
}

//! When no trial step is accurate enough, the best one is used
CONTRACT(H_linesearch_best)
{
  static const double tab[3][10] = {
    { 0.9, 0.6, 0.8, 0.4, 0.7, 0.45, 0.8, 0.6, 0.9, 0.5 },
    { -0.9, 0.8, -0.7, 0.6, -0.8, 0.9, -0.75, 0.8, -0.9, 0.9 },
    { 1.5, -1.2, 1.5, -1.4, 1.6, -1.9, 1.3, -1.2, 1.5, -1.6 } };
  struct Script : public Model
  {
    const double* r;
    Script() : Model(1,"u") {}
    virtual bool assembleSystem(const TimeDomain& t, const Vectors& v, bool, bool)
    {
      state.push_back(v.front());
      myEqSys->b.front()->getPtr()[0] = r[state.size()-1];
      return true;
    }
  } m;
  m.r = tab[vc_pick("sequence",0,2)];
  NonLinSIM s(m,NonLinSIM::L2);
  s.initSol(1,1);
  double d0 = s.solution.front()[0] = vc_real("d0");
  s.eta = 1.0e-6;
  s.linsol.resize(1); s.residual.resize(1);
  s.linsol[0] = 1.0; s.residual[0] = 1.0;
  TimeStep tp;
  tp.step = 1;
  tp.iter = 2;
  vc_true(s.lineSearch(tp),"the line search is completed");
  vc_true(s.updateConfiguration(tp),"the update is completed");
  size_t n = m.state.size();
  if (n < 10) return; // accurate enough
  vc_cover("no trial is accurate enough");
  vc_eqi(n,10,"at most 10 trials");
  size_t best = 0;
  for (size_t k = 1; k < 10; k++)
    if (fabs(m.r[k]) < fabs(m.r[best])) best = k;
  if (fabs(m.r[best]) >= 1.0) best = 0; // none is better than the unscaled residual
  vc_eq(s.solution.front()[0]-d0,m.state[best][0]-d0,"the best trial is used");
}

//! The norms the criterion is based on
CONTRACT(H_iteration_norms)
{
  class Plain : public Model { public: Plain() : Model(3,"u") {} } m;
  Vector u(3), r(3);
  vc_fill(u.ptr(),3,"u");
  vc_fill(r.ptr(),3,"r");
  double e, rn, dn;
  m.SIMbase::iterationNorms(u,r,e,rn,dn);
  vc_eq(e,u[0]*r[0]+u[1]*r[1]+u[2]*r[2],"the energy of the residual in the increment");
  vc_eq(rn*rn,r[0]*r[0]+r[1]*r[1]+r[2]*r[2],"length of the residual");
  vc_eq(dn*dn,u[0]*u[0]+u[1]*u[1]+u[2]*u[2],"length of the increment");
  vc_true(rn >= 0.0 && dn >= 0.0,"lengths are not negative");
}
