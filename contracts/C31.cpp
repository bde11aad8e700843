// VC-TU: src/SIM/NewmarkSIM.C src/SIM/HHTSIM.C src/SIM/NewmarkNLSIM.C src/SIM/GenAlphaSIM.C src/SIM/MultiStepSIM.C src/SIM/SIMsolution.C src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/SIM/TimeStep.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/ASM/AlgEqSystem.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/LinAlg/SAM.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 120
#include "vc.h"
#include "NewmarkSIM.h"
#include "HHTSIM.h"
#include "NewmarkNLSIM.h"
#include "GenAlphaSIM.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "TimeStep.h"
#include "AlgEqSystem.h"
#include "SystemMatrix.h"
#include "IntegrandBase.h"
#include "IFEM.h"
#include "SAM.h"
#include "Profiler.h"
#include <iostream>

Profiler* utl::profiler = nullptr;
SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);

using SerializeMap = std::map<std::string,std::string>;

struct Sol : public SIMsolution
{
  using SIMsolution::solution;
};

static const char* name(int i)
{
  static const char* nm[4] = { "s0", "s1", "s2", "s3" };
  return nm[i];
}

static void same(const Vectors& a, const Vectors& b)
{
  vc_true(a.size() == b.size(),"number of solution vectors");
  for (size_t k = 0; k < a.size(); k++)
  {
    vc_true(a[k].size() == b[k].size(),"length of the solution vectors");
    for (size_t i = 0; i < a[k].size(); i++)
      vc_eq(a[k][i],b[k][i],"restored value");
  }
}

CONTRACT(H_solution)
{
  Sol s, t;
  int nv = vc_pick("nvec",1,3);
  s.solution.resize(nv);
  t.solution.resize(nv);
  for (int k = 0; k < nv; k++)
  {
    size_t n = vc_size("n",0,3);
    s.solution[k].resize(n);
    if (n) vc_fill(s.solution[k].ptr(),n,name(k));
    size_t m = vc_size("m",0,1);
    t.solution[k].resize(2*m);
    if (m) vc_fill(t.solution[k].ptr(),2*m,"old");
  }
  SerializeMap data;
  vc_true(s.saveSolution(data,"mySim"),"the state is saved");
  Vectors old(t.solution);
  vc_true(!t.restoreSolution(data,"anotherSim"),"a missing record is reported");
  same(t.solution,old);
  vc_true(t.restoreSolution(data,"mySim"),"the state is restored");
  same(t.solution,s.solution);
}

//! Arbitrary time domain data
static void arbTime(TimeStep& tp, bool schedule = false)
{
  tp.maxCFL = schedule ? 0.0 : vc_real("maxCFL");
  tp.time.t = vc_real("t");
  tp.time.dt = vc_real("dt");
  tp.time.dtn = vc_real("dtn");
  tp.time.CFL = schedule ? 0.0 : vc_real("CFL");
  tp.time.first = vc_pick("first",0,1) ? 'c' : 0;
}

static void sameTime(const TimeStep& a, const TimeStep& b)
{
  vc_eqi(a.step,b.step,"restored step counter");
  vc_eq(a.maxCFL,b.maxCFL,"restored CFL restriction");
  vc_eq(a.time.t,b.time.t,"restored time");
  vc_eq(a.time.dt,b.time.dt,"restored step size");
  vc_eq(a.time.dtn,b.time.dtn,"restored previous step size");
  vc_eq(a.time.CFL,b.time.CFL,"restored CFL number");
  vc_eqi(a.time.first,b.time.first,"restored first-step flag");
}

CONTRACT(H_timestep)
{
  TimeStep a, b;
  arbTime(a);
  a.step = vc_int("step",0,100000);
  SerializeMap data;
  vc_true(!b.deSerialize(data),"a missing record is reported");
  vc_true(a.serialize(data),"the state is saved");
  vc_true(b.deSerialize(data),"the state is restored");
  sameTime(b,a);
}

//! With a time step schedule, for an arbitrary state (after cut-backs and adaptive steps)
CONTRACT(H_timestep_schedule)
{
  TimeStep a, b;
  double end = a.starTime = b.starTime = vc_real_range("start",0.0,1.0e3);
  int ns = vc_pick("nstage",1,2);
  for (int i = 0; i < ns; i++)
  {
    double e = vc_real("end");
    vc_assume(e > end+1.0e-2);
    end = e;
    int n = vc_pick("nstep",1,2);
    std::vector<double> dts(n);
    for (double& d : dts) { d = vc_real("stagedt"); vc_assume(d > 1.0e-5); }
    a.mySteps.push_back(std::make_pair(dts,end));
  }
  b.mySteps = a.mySteps;
  a.stopTime = b.stopTime = end;
  a.reset(); b.reset();
  arbTime(a);
  a.step = vc_int("step",0,100000);
  vc_assume(a.time.t >= a.starTime && a.time.t <= end && a.time.dt > 1.0e-5 && a.time.dt < 1.0e3);
  SerializeMap data;
  vc_true(a.serialize(data),"the state is saved");
  vc_true(b.deSerialize(data),"the state is restored");
  sameTime(b,a);
  // The schedule continues in the stage covering the restored time
  if (b.stepIt == b.mySteps.end())
    vc_true(b.hasReached(end),"no stage left at the stop time");
  else
  {
    vc_true(b.time.t < b.stepIt->second,"the end of the current stage is ahead");
    vc_true(b.stepIt == b.mySteps.begin() || b.time.t >= (b.stepIt-1)->second - 1.0e-6*std::max(1.0e-6,b.time.dt),
            "the start of the current stage is reached");
  }
}

//! A restarted schedule takes the same steps as an uninterrupted one
CONTRACT(H_timestep_continue)
{
  TimeStep a, b;
  double end = a.starTime = b.starTime = vc_real_range("start",0.0,1.0e3);
  int ns = vc_pick("nstage",1,2);
  for (int i = 0; i < ns; i++)
  {
    double e = vc_real("end");
    vc_assume(e > end+1.0e-2);
    end = e;
    int n = vc_pick("nstep",1,2);
    std::vector<double> dts(n);
    for (double& d : dts) { d = vc_real("stagedt"); vc_assume(d > 1.0e-2 && d < 1.0e3); }
    a.mySteps.push_back(std::make_pair(dts,end));
  }
  b.mySteps = a.mySteps;
  a.stopTime = b.stopTime = end;
  a.reset(); b.reset();
  int before = vc_pick("before",1,2);
  for (int i = 0; i < before; i++)
    if (!a.increment()) return;
  SerializeMap data;
  vc_true(a.serialize(data),"the state is saved");
  vc_true(b.deSerialize(data),"the state is restored");
  sameTime(b,a);
  int after = vc_pick("after",1,2);
  for (int i = 0; i < after; i++)
  {
    bool more = a.increment();
    vc_true(b.increment() == more,"the restarted run stops with the uninterrupted one");
    if (!more) return;
    sameTime(b,a);
  }
}

//! A simulator without any finite element model, having a given number of equations
struct MySAM : public SAM
{
  MySAM(int n) { neq = n; }
};

class Model : public SIMdummy<SIMgeneric>
{
public:
  Model(int n) { mySam = new MySAM(n); }
  virtual std::string getName() const { return "TheModel"; }
};

template<class SIM> static void restart(size_t nvec, int nsys)
{
  int ndof = vc_pick("ndof",1,2), neq = vc_pick("neq",1,2);
  Model model(neq), other(neq);
  SIM a(model), b(other);
  a.initSol(nvec,ndof);
  b.initSol(nvec,ndof);
  for (size_t k = 0; k < nvec; k++)
  {
    static const char* nm[6] = { "s0", "s1", "s2", "s3", "s4", "s5" };
    vc_fill(a.solution[k].ptr(),ndof,nm[k]);
    vc_fill(b.solution[k].ptr(),ndof,"old");
  }
  a.refNorm = vc_real("refNorm");
  SystemVector *af[2] = { nullptr, nullptr }, *bf[2] = { nullptr, nullptr };
  SerializeMap data;
  vc_true(!b.deSerialize(data),"a missing record is reported");
  for (int i = 0; i < nsys; i++)
  {
    if (vc_pick("saved",0,1))
    {
      af[i] = new StdVector(neq);
      vc_fill(af[i]->getPtr(),neq,"force");
      if (vc_pick("exists",0,1))
      {
        bf[i] = new StdVector(neq);
        vc_fill(bf[i]->getPtr(),neq,"oldforce");
      }
    }
  }
  if constexpr (std::is_same<SIM,HHTSIM>::value)
  {
    a.Finert = af[0]; a.Fext = af[1];
    b.Finert = bf[0]; b.Fext = bf[1];
  }
  else if constexpr (std::is_same<SIM,NewmarkNLSIM>::value)
  {
    a.Finert = af[0];
    b.Finert = bf[0];
  }
  vc_true(a.serialize(data),"the state is saved");
  vc_true(b.deSerialize(data),"the state is restored");
  same(b.solution,a.solution);
  vc_eq(b.refNorm,a.refNorm,"restored reference norm");
  if constexpr (std::is_same<SIM,HHTSIM>::value)
  {
    bf[0] = b.Finert; bf[1] = b.Fext;
  }
  else if constexpr (std::is_same<SIM,NewmarkNLSIM>::value)
    bf[0] = b.Finert;
  for (int i = 0; i < nsys; i++)
  {
    vc_true((bf[i] == nullptr) == (af[i] == nullptr),"force vector restored if saved");
    if (af[i] && bf[i])
    {
      vc_true(bf[i]->dim() == af[i]->dim(),"length of the restored force vector");
      for (int j = 0; j < neq; j++)
        vc_eq(bf[i]->getPtr()[j],af[i]->getPtr()[j],"restored force");
    }
  }
}

CONTRACT(H_newmark) { restart<NewmarkSIM>(vc_pick("nvec",3,4),0); }
CONTRACT(H_newmarknl) { restart<NewmarkNLSIM>(3,1); }
CONTRACT(H_hht) { restart<HHTSIM>(5,2); }
CONTRACT(H_genalpha) { restart<GenAlphaSIM>(3,0); }
