// VC-TU: src/SIM/NewmarkSIM.C src/SIM/HHTSIM.C src/SIM/NewmarkNLSIM.C src/SIM/GenAlphaSIM.C src/SIM/MultiStepSIM.C src/SIM/SIMsolution.C src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/SIM/TimeStep.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/ASM/AlgEqSystem.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/LinAlg/SAM.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 120
#include "vc.h"
#include "NewmarkSIM.h"
#include "HHTSIM.h"
#include "NewmarkNLSIM.h"
#include "GenAlphaSIM.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "TimeStep.h"
#include "AlgEqSystem.h"
#include "SystemMatrix.h"
#include "IntegrandBase.h"
#include "IFEM.h"
#include "Profiler.h"
#include <iostream>

Profiler* utl::profiler = nullptr;
SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);

//! A simulator without any finite element model, recording the configuration updates
class Model : public SIMdummy<SIMgeneric>
{
public:
  Vector conf, rot;
  double rotScale = 0.0;
  int nConf = 0, nRot = 0;
  Model() {}
  virtual bool updateConfiguration(const Vector& u) { conf = u; ++nConf; return true; }
  virtual bool updateRotations(const RealArray& u, double s) { rot = u; rotScale = s; ++nRot; return true; }
};

//! The relations between the increments of a time step from (d0,v0,a0) to (d1,v1,a1)
static void relations(const Vector& d0, const Vector& v0, const Vector& a0,
                      const Vector& d1, const Vector& v1, const Vector& a1,
                      double beta, double gamma, double dt)
{
  vc_true(d1.size() == d0.size() && v1.size() == d0.size() && a1.size() == d0.size(),"the state keeps its length");
  for (size_t i = 0; i < d0.size(); i++)
  {
    vc_eq(v1[i],v0[i]+dt*((1.0-gamma)*a0[i]+gamma*a1[i]),"velocity: v1 = v0 + dt*((1-gamma)*a0 + gamma*a1)");
    vc_eq(d1[i],d0[i]+dt*v0[i]+dt*dt*((0.5-beta)*a0[i]+beta*a1[i]),
          "displacement: d1 = d0 + dt*v0 + dt^2*((1/2-beta)*a0 + beta*a1)");
  }
}

template<class SIM> struct Newmark
{
  Model model;
  SIM sim;
  TimeStep tp;
  Vector d0, v0, a0;
  double b, g, dt;
  size_t n;

  Newmark(size_t nvec, int lo = 1) : sim(model)
  {
    n = vc_size("ndof",1,3);
    sim.initSol(nvec,n);
    sim.beta = b = vc_real("beta");
    sim.gamma = g = vc_real("gamma");
    tp.time.dt = dt = vc_real("dt");
    vc_assume(b > 0.0 && g > 0.0 && dt > 0.0);
    vc_fill(sim.solution[0].ptr(),n,"d");
    vc_fill(sim.solution[1].ptr(),n,"v");
    vc_fill(sim.solution[2].ptr(),n,"a");
    d0 = sim.solution[0]; v0 = sim.solution[1]; a0 = sim.solution[2];
  }
  void increment(const char* nm) { sim.linsol.resize(n); vc_fill(sim.linsol.ptr(),n,nm); }
  void check() { relations(d0,v0,a0,sim.solution[0],sim.solution[1],sim.solution[2],b,g,dt); }
};

static const char* incName(int i)
{
  static const char* nm[4] = { "u0", "u1", "u2", "u3" };
  return nm[i];
}

//! The predictors satisfy the relations, each with its own constant quantity
CONTRACT(P_newmark_predict)
{
  Newmark<NewmarkSIM> s(3);
  int p = vc_pick("predictor",0,2);
  s.sim.predictor = p == 0 ? 'a' : (p == 1 ? 'v' : 'd');
  vc_true(s.sim.predictStep(s.tp),"the predictor is accepted");
  s.check();
  for (size_t i = 0; i < s.n; i++)
    if (p == 0)
      vc_eq(s.sim.solution[2][i],0.0,"the zero acceleration predictor gives zero acceleration");
    else if (p == 1)
      vc_eq(s.sim.solution[1][i],s.v0[i],"the constant velocity predictor keeps the velocity");
    else
      vc_eq(s.sim.solution[0][i],s.d0[i],"the constant displacement predictor keeps the displacement");
  if (p < 2)
  {
    vc_true(s.model.nConf == 1,"the predicted displacements are passed to the model");
    for (size_t i = 0; i < s.n; i++)
      vc_eq(s.model.conf[i],s.sim.solution[0][i],"the model gets the predicted displacement");
  }
}

//! A correction changes an arbitrary state by the prescribed multiples of the solved increment, such that the relations
//! are invariants of the iterations
CONTRACT(P_newmark_correct)
{
  Newmark<NewmarkSIM> s(3);
  bool disp = s.sim.solveDisp = vc_pick("solveDisp",0,1);
  bool conv = vc_pick("converged",0,1);
  s.tp.iter = vc_pick("iter",0,2);
  s.increment("u");
  Vector u(s.sim.linsol);
  vc_true(s.sim.correctStep(s.tp,conv),"the correction is accepted");
  for (size_t i = 0; i < s.n; i++)
  {
    // change of the acceleration
    double da = disp ? u[i]/(s.b*s.dt*s.dt) : u[i];
    vc_eq(s.sim.solution[2][i],s.a0[i]+da,"change of the acceleration");
    vc_eq(s.sim.solution[1][i],s.v0[i]+s.g*s.dt*da,"change of the velocity");
    vc_eq(s.sim.solution[0][i],s.d0[i]+s.b*s.dt*s.dt*da,"change of the displacement");
    vc_eq(s.sim.linsol[i],u[i],"the solved increment is not changed");
    vc_eq(s.model.conf[i],s.sim.solution[0][i],"the model gets the corrected displacement");
  }
  vc_true(s.model.nConf == 1,"the corrected displacements are passed to the model");
}

CONTRACT(P_newmark_step)
{
  Newmark<NewmarkSIM> s(3);
  int p = vc_pick("predictor",0,2);
  s.sim.predictor = p == 0 ? 'a' : (p == 1 ? 'v' : 'd');
  s.sim.solveDisp = vc_pick("solveDisp",0,1);
  vc_true(s.sim.predictStep(s.tp),"the predictor is accepted");
  int nc = vc_pick("corrections",1,2);
  for (int i = 0; i < nc; i++)
  {
    s.tp.iter = i;
    s.increment(incName(i));
    s.sim.correctStep(s.tp,i+1 == nc);
    s.check();
  }
}

//! Rotations are updated by the displacement increments
CONTRACT(P_newmark_rotations)
{
  Newmark<NewmarkSIM> s(3);
  bool total = vc_pick("total",0,1);
  s.sim.rotUpd = total ? 't' : 'i';
  s.sim.predictor = vc_pick("predictor",0,1) ? 'v' : 'a';
  bool disp = s.sim.solveDisp = vc_pick("solveDisp",0,1);
  s.sim.predictStep(s.tp);
  Vector d1(s.sim.solution[0]);
  for (size_t i = 0; i < s.n; i++)
    if (total)
      vc_eq(s.model.rot[i],d1[i],"total rotations after the prediction");
    else
      vc_eq(s.model.rotScale*s.model.rot[i],d1[i]-s.d0[i],"incremental rotations after the prediction");
  s.increment("u");
  s.sim.correctStep(s.tp,false);
  for (size_t i = 0; i < s.n; i++)
    if (total)
      vc_eq(s.model.rot[i],s.sim.solution[0][i],"total rotations after the correction");
    else
      vc_eq(s.model.rotScale*s.model.rot[i],s.sim.solution[0][i]-d1[i],"incremental rotations after the correction");
  vc_true(s.model.nRot == 2,"the rotations are updated with each change of the displacements");
  (void)disp;
}

//! The HHT algorithm: The state satisfies the relations after any correction, and the last two vectors hold the predicted
//! velocity and acceleration before the first correction. The sum of all increments is the displacement increment, so that
//! the state after any number of corrections is one of those reached by two corrections with arbitrary increments.
CONTRACT(P_hht_step)
{
  Newmark<HHTSIM> s(vc_pick("nvec",5,6));
  const size_t pV = s.sim.solution.size()-2, pA = pV+1;
  vc_true(s.sim.predictStep(s.tp),"the prediction is accepted");
  for (size_t i = 0; i < s.n; i++)
  {
    vc_eq(s.sim.solution[0][i],s.d0[i],"constant displacement predictor");
    vc_eq(s.sim.solution[1][i],s.v0[i],"the old velocity is kept in the prediction");
    vc_eq(s.sim.solution[2][i],s.a0[i],"the old acceleration is kept in the prediction");
    // with zero displacement increment, v1 = v0 - V and a1 = a0 - A
    double a1 = s.a0[i] - s.sim.solution[pA][i];
    double v1 = s.v0[i] - s.sim.solution[pV][i];
    vc_eq(v1,s.v0[i]+s.dt*((1.0-s.g)*s.a0[i]+s.g*a1),"predicted velocity");
    vc_eq(s.dt*s.v0[i]+s.dt*s.dt*((0.5-s.b)*s.a0[i]+s.b*a1),0.0,"predicted acceleration");
  }
  int nc = vc_pick("corrections",1,3);
  int atonce = nc == 1 ? vc_pick("convergedInPrediction",0,1) : 0;
  Vector sum(s.d0);
  for (int i = 0; i < nc; i++)
  {
    s.tp.iter = i+1 < nc || !atonce ? i+1 : 0;
    s.increment(incName(i));
    sum.add(s.sim.linsol);
    vc_true(s.sim.correctStep(s.tp,i+1 == nc && (nc > 1 || atonce)),"the correction is accepted");
    s.check();
    for (size_t j = 0; j < s.n; j++)
    {
      vc_eq(s.sim.solution[0][j],sum[j],"the displacements are changed by the solved increments");
      vc_eq(s.model.conf[j],sum[j],"the model gets the corrected displacement");
    }
  }
}

//! Sub-iterations: The solution is changed by another solver, and the time step is then solved again from that state
CONTRACT(P_hht_subiteration)
{
  Newmark<HHTSIM> s(5);
  s.sim.predictStep(s.tp);
  s.tp.iter = vc_pick("iter",0,1);
  s.increment("u0");
  s.sim.correctStep(s.tp,false);
  if (vc_pick("changed",0,1))
  {
    RealArray nd(s.n);
    vc_fill(nd.data(),s.n,"new_d");
    s.sim.setSolution(nd,0);
    for (size_t i = 0; i < s.n; i++)
      vc_eq(s.sim.solution[0][i],nd[i],"setSolution sets the displacement");
  }
  int nc = vc_pick("corrections",1,2);
  for (int i = 0; i < nc; i++)
  {
    s.tp.iter = nc == 1 ? 0 : i+1;
    s.increment(incName(i+1));
    s.sim.correctStep(s.tp,i+1 == nc);
    s.check();
  }
}

//! The next step starts from the converged state
CONTRACT(P_hht_twosteps)
{
  Newmark<HHTSIM> s(5,1);
  for (int step = 0; step < 2; step++)
  {
    s.d0 = s.sim.solution[0]; s.v0 = s.sim.solution[1]; s.a0 = s.sim.solution[2];
    if (step == 1)
    {
      s.tp.time.dt = s.dt = vc_real("dt2");
      vc_assume(s.dt > 0.0);
    }
    s.sim.predictStep(s.tp);
    s.tp.iter = 1;
    s.increment(incName(2*step));
    s.sim.correctStep(s.tp,false);
    s.tp.iter = 1;
    s.increment(incName(2*step+1));
    s.sim.correctStep(s.tp,true);
    s.check();
  }
}

//! The nonlinear Newmark driver starts from zero displacement increment, and the relations hold after any correction
CONTRACT(P_newmarknl_step)
{
  Newmark<NewmarkNLSIM> s(3);
  vc_true(s.sim.predictStep(s.tp),"the prediction is accepted");
  for (size_t i = 0; i < s.n; i++)
  {
    // the predicted vectors are the negative velocity and acceleration for zero displacement increment
    double a1 = -s.sim.solution[2][i];
    double v1 = -s.sim.solution[1][i];
    vc_eq(s.sim.solution[0][i],s.d0[i],"constant displacement predictor");
    vc_eq(v1,s.v0[i]+s.dt*((1.0-s.g)*s.a0[i]+s.g*a1),"predicted velocity");
    vc_eq(s.dt*s.v0[i]+s.dt*s.dt*((0.5-s.b)*s.a0[i]+s.b*a1),0.0,"predicted acceleration");
  }
  int changed = vc_pick("setSolution",0,1);
  if (changed)
  {
    RealArray nd(s.n);
    vc_fill(nd.data(),s.n,"new_d");
    s.sim.setSolution(nd,0);
  }
  Vector sum(s.sim.solution[0]);
  int nc = vc_pick("corrections",1,3);
  for (int i = 0; i < nc; i++)
  {
    s.tp.iter = vc_pick("iter",0,1) ? i+1 : i;
    s.increment(incName(i));
    sum.add(s.sim.linsol);
    vc_true(s.sim.correctStep(s.tp,i+1 == nc),"the correction is accepted");
    s.check();
    for (size_t j = 0; j < s.n; j++)
    {
      vc_eq(s.sim.solution[0][j],sum[j],"the displacements are changed by the solved increments");
      vc_eq(s.model.conf[j],sum[j],"the model gets the corrected displacement");
    }
  }
}

//! The next step starts from the converged state
CONTRACT(P_newmarknl_twosteps)
{
  Newmark<NewmarkNLSIM> s(3);
  for (int step = 0; step < 2; step++)
  {
    s.d0 = s.sim.solution[0]; s.v0 = s.sim.solution[1]; s.a0 = s.sim.solution[2];
    if (step == 1)
    {
      s.tp.time.dt = s.dt = vc_real("dt2");
      vc_assume(s.dt > 0.0);
    }
    s.sim.predictStep(s.tp);
    s.tp.iter = 1;
    s.increment(incName(2*step));
    s.sim.correctStep(s.tp,false);
    s.tp.iter = 2;
    s.increment(incName(2*step+1));
    s.sim.correctStep(s.tp,true);
    s.check();
  }
}

//! The generalized-alpha driver: Between the iterations, the solution vectors are the weighted averages of the old and the
//! new state. The new state, which is returned when converged, satisfies the relations.
CONTRACT(P_genalpha_step)
{
  Newmark<GenAlphaSIM> s(3);
  double af = s.sim.alpha_f = vc_real("alpha_f");
  double am = s.sim.alpha_m = vc_real("alpha_m");
  vc_assume(af > 0.0 && am > 0.0);
  int p = vc_pick("predictor",0,2);
  s.sim.predictor = p == 0 ? 'a' : (p == 1 ? 'v' : 'd');
  bool disp = s.sim.solveDisp = vc_pick("solveDisp",0,1);
  // The step starts with the advancement of the solution
  s.tp.step = 0;
  vc_true(s.sim.advanceStep(s.tp,false),"the step is advanced");
  vc_true(s.sim.predictStep(s.tp),"the prediction is accepted");
  int nc = vc_pick("corrections",0,2);
  Vector d1, v1, a1;
  for (int i = 0; i <= nc; i++)
  {
    // Recover the new state from the averages
    d1 = s.d0; v1 = s.v0; a1 = s.a0;
    for (size_t j = 0; j < s.n; j++)
    {
      d1[j] += (s.sim.solution[0][j]-s.d0[j])/af;
      v1[j] += (s.sim.solution[1][j]-s.v0[j])/af;
      a1[j] += (s.sim.solution[2][j]-s.a0[j])/am;
    }
    relations(s.d0,s.v0,s.a0,d1,v1,a1,s.b,s.g,s.dt);
    if (i == nc) break;
    Vector p0(d1), p1(v1), p2(a1);
    s.tp.iter = i+1;
    s.increment(incName(i));
    vc_true(s.sim.correctStep(s.tp,false),"the correction is accepted");
    for (size_t j = 0; j < s.n; j++)
    {
      double da = disp ? s.sim.linsol[j]/(s.b*s.dt*s.dt) : s.sim.linsol[j];
      vc_eq(s.sim.solution[0][j],(1.0-af)*s.d0[j]+af*(p0[j]+s.b*s.dt*s.dt*da),"averaged displacement");
      vc_eq(s.sim.solution[1][j],(1.0-af)*s.v0[j]+af*(p1[j]+s.g*s.dt*da),"averaged velocity");
      vc_eq(s.sim.solution[2][j],(1.0-am)*s.a0[j]+am*(p2[j]+da),"averaged acceleration");
    }
  }
  s.increment("last");
  s.sim.correctStep(s.tp,true);
  s.check();
  for (size_t j = 0; j < s.n; j++)
  {
    double da = disp ? s.sim.linsol[j]/(s.b*s.dt*s.dt) : s.sim.linsol[j];
    vc_eq(s.sim.solution[2][j],a1[j]+da,"converged acceleration");
    vc_eq(s.model.conf[j],s.sim.solution[0][j],"the model gets the converged displacement");
  }
}

CONTRACT(P_genalpha_twosteps)
{
  Newmark<GenAlphaSIM> s(3);
  s.sim.alpha_f = vc_real("alpha_f");
  s.sim.alpha_m = vc_real("alpha_m");
  vc_assume(s.sim.alpha_f > 0.0 && s.sim.alpha_m > 0.0);
  for (int step = 0; step < 2; step++)
  {
    s.d0 = s.sim.solution[0]; s.v0 = s.sim.solution[1]; s.a0 = s.sim.solution[2];
    s.sim.advanceStep(s.tp,false);
    s.sim.predictStep(s.tp);
    s.increment(incName(2*step));
    s.sim.correctStep(s.tp,false);
    s.increment(incName(2*step+1));
    s.sim.correctStep(s.tp,true);
    s.check();
  }
}

//! The solution vectors have equal lengths and are zero initially, and the advancement keeps the current state while the
//! history states are shifted
template<class SIM> static void initAndAdvance(int nmin)
{
  Model model;
  SIM sim(model);
  TimeStep tp;
  tp.step = vc_pick("step",0,1);
  size_t n = vc_size("ndof",1,2);
  size_t nvec = vc_pick("nvec",nmin,9);
  sim.initSol(nvec,n);
  vc_true(sim.solution.size() == nvec,"number of solution vectors");
  for (size_t k = 0; k < nvec; k++)
  {
    vc_true(sim.solution[k].size() == n,"length of the solution vectors");
    for (size_t i = 0; i < n; i++)
      vc_eq(sim.solution[k][i],0.0,"the solution is zero initially");
    static const char* nm[9] = { "s0","s1","s2","s3","s4","s5","s6","s7","s8" };
    vc_fill(sim.solution[k].ptr(),n,nm[k]);
  }
  Vectors old(sim.solution);
  sim.advanceStep(tp,false);
  size_t nstate = nvec/3;
  for (size_t k = 0; k < nvec; k++)
    for (size_t i = 0; i < n; i++)
      vc_eq(sim.solution[k][i],old[k < 3 || k >= 3*nstate ? k : k-3][i],
            "the history states are shifted and the current state is kept");
}

CONTRACT(P_init_newmark) { initAndAdvance<NewmarkSIM>(3); }
CONTRACT(P_init_newmarknl) { initAndAdvance<NewmarkNLSIM>(3); }
CONTRACT(P_init_genalpha) { initAndAdvance<GenAlphaSIM>(3); }
