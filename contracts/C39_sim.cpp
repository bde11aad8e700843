// VC-TU: src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/DiagMatrix.C src/ASM/AlgEqSystem.C src/ASM/ElmMats.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/LinAlg/SAM.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-INCLUDE: sam.inc solver.inc
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 200
#include "vc.h"
#include "sam.inc"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "AlgEqSystem.h"
#include "DenseMatrix.h"
#include "SparseMatrix.h"
#include "ElmMats.h"
#include "IntegrandBase.h"
#include "IFEM.h"
#include "Profiler.h"
#include "solver.inc"
#include <iostream>
#include <string>

SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

namespace {

class Prob : public IntegrandBase
{
public:
  Prob() : IntegrandBase(1) {}
};

class Model : public SIMdummy<SIMgeneric>
{
public:
  explicit Model(const TModel& tm)
  {
    myProblem = new Prob; // owned by the base class
    mySam = new TSam(tm);
  }
};

// Two nodes, four dofs: one fixed (to a non-zero value or not), one free, one prescribed, one slave of the free dof
TModel makeModel(int which)
{
  TModel m;
  if (which == 0) {
    m.nd = { 1, 1 };
    m.kind = { '1','1' };
    m.elems = { {1,2} };
  }
  else {
    m.nd = { 2, 2 };
    m.kind = { 'F','1','C','C' };
    m.elems = { {1,2} };
    m.ceqDof = { 3, 4 };
    m.c0 = { vc_real("c0"), vc_real("c0") };
    m.mst = { {}, { { 2,vc_real("cm") } } };
  }
  m.derive();
  return m;
}

}

// The solution of the simulator fulfils the assembled equations in the free dofs and the constraints in the others
CONTRACT(H_solve_system)
{
  int which = vc_pick("model",0,1), sparse = vc_pick("sparse",0,1), nrhs = vc_pick("vectors",1,2);
  int several = vc_pick("several at once",0,1), cond = nrhs == 1 && vc_pick("condition",0,1);
  TModel m = makeModel(which);
  Model sim(m);
  Model::msgLevel = cond;
  sim.myEqSys = new AlgEqSystem(*sim.mySam);
  vc_true(sim.myEqSys->init(sparse ? LinAlg::SPARSE : LinAlg::DENSE,nullptr,1,nrhs,0,false),"initialized");
  sim.myEqSys->initialize(1);
  size_t n = m.ndof;
  ElmMats elm(true);
  elm.resize(1,nrhs);
  elm.redim(n);
  vc_fill(elm.A.front().ptr(),n*n,"k");
  for (Vector& f : elm.b) vc_fill(f.ptr(),n,"f");
  vc_true(sim.myEqSys->assemble(&elm,1),"assembled");
  vc_true(sim.myEqSys->finalize(true),"finalized");
  // reduced system as assembled
  size_t ne = m.neq;
  std::vector<double> A(ne*ne);
  SystemMatrix* S = sim.myEqSys->getMatrix();
  for (size_t i = 1; i <= ne; i++)
    for (size_t j = 1; j <= ne; j++)
      A[i-1+ne*(j-1)] = sparse ? const_cast<const SparseMatrix&>(*static_cast<SparseMatrix*>(S))(i,j) : (*static_cast<DenseMatrix*>(S))(i,j);
  std::vector<double> b;
  for (int k = 0; k < nrhs; k++)
    for (size_t i = 0; i < ne; i++) b.push_back(sim.myEqSys->getVector(k)->getRef()[i]);
  double D = det(A.data(),ne);
  vc_assume(D > 0.01 || D < -0.01);
  Vectors sol(several ? vc_pick("solution vectors",0,3) : nrhs);
  for (Vector& s : sol) { s.resize(vc_pick("old size",0,1)); s.fill(1.0); }
  size_t nOld = sol.size();
  if (several)
    vc_true(sim.solveSystem(sol),"solved");
  else {
    double rc = -1.0;
    for (int k = 0; k < nrhs; k++)
      vc_true(sim.solveEqSystem(sol[k],k,cond ? &rc : nullptr),"solved");
  }
  vc_eqi(sol.size(),std::max(nOld,size_t(nrhs)),"one solution per right-hand-side");
  for (int k = 0; k < nrhs && k < (int)sol.size(); k++) {
    vc_eqi(sol[k].size(),n,"size of the solution");
    if (sol[k].size() != n) return;
    std::vector<double> x(ne,0.0);
    for (size_t d = 0; d < n; d++)
      if (m.kind[d] == '1')
        for (size_t q = 0; q < ne; q++) if (m.T[d][q] != 0.0) x[q] = sol[k][d];
    for (size_t i = 0; i < ne; i++) {
      double s = 0.0;
      for (size_t j = 0; j < ne; j++) s += A[i+ne*j]*x[j];
      vc_eq(s,b[k*ne+i],"the equations are fulfilled");
    }
    for (size_t d = 0; d < n; d++) {
      double s = k == 0 ? m.g[d] : 0.0;
      for (size_t q = 0; q < ne; q++) s += m.T[d][q]*x[q];
      vc_eq(sol[k][d],s,"the solution fulfils the constraints (homogeneous ones for additional load vectors)");
    }
  }
  vc_cover("solved");
}

// Without an equation system, a matrix or the vector, the solution is refused
CONTRACT(H_refused)
{
  TModel m = makeModel(0);
  Model sim(m);
  Model::msgLevel = 0;
  Vector sol;
  Vectors sols;
  int what = vc_pick("what",0,4);
  if (what > 0) {
    sim.myEqSys = new AlgEqSystem(*sim.mySam);
    if (what > 1)
      vc_true(sim.myEqSys->init(LinAlg::DENSE,nullptr,1,what == 2 ? 0 : 1,0,false),"initialized");
    sim.myEqSys->initialize(1);
    if (what == 4) {
      ElmMats elm(true);
      elm.resize(1,1);
      elm.redim(2);
      vc_fill(elm.A.front().ptr(),4,"k");
      vc_fill(elm.b.front().ptr(),2,"f");
      vc_true(sim.myEqSys->assemble(&elm,1),"assembled");
    }
  }
  if (what < 4) {
    vc_true(!sim.solveEqSystem(sol,0,nullptr),"refused");
    vc_true(!sim.solveSystem(sols),"refused");
  }
  else
    vc_true(!sim.solveEqSystem(sol,1,nullptr),"no such right-hand-side");
  vc_cover("refused");
}
