// VC-TU: src/SIM/AdaptiveSetup.C src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/Utility/LogStream.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C src/Utility/Functions.C
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 250
// VC-PATHS: 30000
#include "vc.h"
#include "AdaptiveSetup.h"
#include "ASMunstruct.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "Functions.h"
#include "IFEM.h"
#include "LogStream.h"
#include "Profiler.h"
#include "patch.inc"
#include <iostream>
#include <string>
#include <cmath>

SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

//! A patch where each element error is distributed to the functions of the element
class UPatch : public TestPatch, public ASMunstruct
{
public:
  int nfun;
  UPatch(int n, const IntVec& elms) : TestPatch(1,{1}), nfun(n) { myMLGE = elms; nel = elms.size(); }
  bool refine(const LR::RefineData&, Vectors&) override { return false; }
  Vec3 getElementCenter(int) const override { return Vec3(); }
  size_t getNoRefineNodes() const override { return nfun; }
  size_t getNoRefineElms() const override { return nel; }
  void remapErrors(RealArray& e, const RealArray& o, bool elm) const override
  {
    if (elm) e = o;
    else for (size_t i = 0; i < e.size(); i++) { e[i] = 0.0; for (size_t j = 0; j < o.size(); j++) if (i == j || i == j+1) e[i] += o[j]; }
  }
};

class Model : public SIMdummy<SIMgeneric>
{
public:
  double refNorm = 100.0;
  bool ana = false;
  virtual double getReferenceNorm(const Vectors&, size_t) const { return refNorm; }
  virtual bool haveAnaSol() const { return ana; }
};

namespace {
  typedef AdaptiveSetup::Threshold Thr;

  struct Setup
  {
    Model sim;
    AdaptiveSetup ad;
    Vectors gNorm;
    Setup(int nFun, const IntVec& elms) : ad(sim)
    {
      sim.myModel.push_back(new UPatch(nFun,elms));
      sim.nGlPatches = 1;
      ad.adaptor = 1;
      ad.adNorm = 2;
      gNorm.resize(2);
      gNorm[0].resize(4);
      gNorm[1].resize(2);
      gNorm[1](1) = 0.001;
      gNorm[1](2) = 50.0;
    }
  };

  // Checks the marked set against the criterion, given the indicator of each entity
  void marked(const LR::RefineData& prm, int n, const std::vector<double>& e, double beta, Thr thr)
  {
    size_t N = e.size();
    vc_eqi(prm.elements.size(),n,"number of marked entities");
    vc_true(n >= 0 && n <= (int)N,"no more than there are");
    std::vector<int> in(N,0);
    for (int i : prm.elements) {
      vc_true(i >= 0 && i < (int)N && !in[i < 0 || i >= (int)N ? 0 : i],"each is marked once");
      if (i >= 0 && i < (int)N) in[i] = 1;
    }
    for (size_t k = 1; k < prm.elements.size(); k++) vc_le(e[prm.elements[k]],e[prm.elements[k-1]],"in order of decreasing error");
    // nothing is left out that has a larger error than a marked one
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++)
        if (in[i] && !in[j]) vc_le(e[j],e[i],"the largest errors are marked");
    double sum = 0.0, eMax = e[0], eMin = e[0];
    for (double v : e) { sum += v; if (v > eMax) eMax = v; if (v < eMin) eMin = v; }
    if (thr == AdaptiveSetup::NONE || thr == AdaptiveSetup::SYMMETRIZED) {
      int want = std::ceil(N*beta/100.0);
      if (want > (int)N) want = N;
      if (thr == AdaptiveSetup::NONE) vc_eqi(n,want,"the given share is marked");
      else {
        vc_true(n >= want,"at least the given share is marked");
        if (want > 0) {
          double last = e[prm.elements[want-1]];
          for (size_t i = 0; i < N; i++) {
            double d = e[i] - last;
            if (d < 0.0) d = -d;
            if (!in[i]) vc_true(!(d < 1.0e-6*last),"entities with the same error are marked together");
          }
          for (int k = want; k < n; k++) vc_le(last-e[prm.elements[k]],1.0e-6*last,"only those with the same error are added");
        }
      }
    }
    else if (thr == AdaptiveSetup::DORFEL) {
      double part = 0.0;
      for (size_t i = 0; i < N; i++) if (in[i]) part += e[i];
      vc_le(sum*beta*0.01-1.0e-9*sum,part,"the marked ones have the given share of the total error");
      // without the last group of equal errors the share is not exceeded by another one
      if (n > 1) {
        double before = 0.0;
        for (int k = 0; k+1 < n; k++)
          if (e[prm.elements[k]] > e[prm.elements[n-1]]) {
            bool next = true; // the next larger error is not needed either
            for (int l = k+1; l < n; l++) if (e[prm.elements[l]] > e[prm.elements[n-1]]) next = false;
            if (!next) before += e[prm.elements[k]];
          }
        vc_true(before < sum*beta*0.01 || n == 1,"no more than needed");
      }
    }
    else {
      double lim = (thr == AdaptiveSetup::MAXIMUM ? eMax : thr == AdaptiveSetup::MINIMUM ? eMin : sum/N)*beta*0.01;
      for (size_t i = 0; i < N; i++) {
        if (e[i] > lim*(1.0+1.0e-9)) vc_true(in[i],"all errors above the limit are marked");
        if (e[i] < lim*(1.0-1.0e-9)) vc_true(!in[i],"no error below the limit is marked");
      }
    }
  }

  void run(Thr thr, int nmax)
  {
    int N = vc_pick("elements",1,nmax);
    IntVec ids;
    for (int i = 1; i <= N; i++) ids.push_back(i);
    Setup s(N,ids);
    std::vector<double> e(N);
    Vector ref(N);
    int tie = N > 1 ? vc_pick("tie",0,2) : 0;
    for (int i = 0; i < N; i++) {
      e[i] = (tie == 1 && i == N-1) ? e[0] : (tie == 2 && i > 0) ? e[0] : vc_real("e");
      vc_assume(e[i] > 0.001);
      vc_assume(e[i] < 1.0e3);
      ref[i] = e[i];
    }
    static const double betas[5] = { 10.0, 50.0, 100.0, 130.0, 0.5 };
    double beta = betas[vc_pick("beta",0,thr == AdaptiveSetup::MAXIMUM || thr == AdaptiveSetup::NONE || thr == AdaptiveSetup::DORFEL ? 2 : 3)];
    if (thr == AdaptiveSetup::NONE && vc_pick("small",0,1)) beta = betas[4];
    s.ad.beta = beta;
    s.ad.threshold = thr;
    s.ad.scheme = vc_pick("scheme",0,1) ? AdaptiveSetup::MINSPAN : AdaptiveSetup::FULLSPAN;
    LR::RefineData prm;
    prm.elements = { 77 };
    int n = s.ad.calcRefinement(prm,2,s.gNorm,ref,100);
    marked(prm,n,e,beta,thr);
    if (n > 0) vc_cover("something is marked");
  }
}

CONTRACT(H_share)       { run(AdaptiveSetup::NONE,3); }
CONTRACT(H_maximum)     { run(AdaptiveSetup::MAXIMUM,3); }
CONTRACT(H_average)     { run(AdaptiveSetup::AVERAGE,3); }
CONTRACT(H_minimum)     { run(AdaptiveSetup::MINIMUM,3); }
CONTRACT(H_dorfel)      { run(AdaptiveSetup::DORFEL,3); }
CONTRACT(H_symmetrized) { run(AdaptiveSetup::SYMMETRIZED,3); }

//! The error of each basis function is the one mapped from its elements
CONTRACT(H_functions)
{
  int N = vc_pick("elements",1,2), perm = vc_pick("numbering",0,1);
  IntVec ids;
  for (int i = 1; i <= N; i++) ids.push_back(perm ? N+1-i : i);
  Setup s(N+1,ids);
  Vector ref(N);
  std::vector<double> e(N+1,0.0);
  for (int i = 0; i < N; i++) {
    ref[i] = vc_real("e");
    vc_assume(ref[i] > 0.001);
    vc_assume(ref[i] < 1.0e3);
  }
  for (int i = 0; i < N; i++) { e[i] += ref(ids[i]); e[i+1] += ref(ids[i]); }
  s.ad.beta = 50.0;
  s.ad.threshold = vc_pick("threshold",0,1) ? AdaptiveSetup::MAXIMUM : AdaptiveSetup::NONE;
  s.ad.scheme = AdaptiveSetup::ISOTROPIC_FUNCTION;
  LR::RefineData prm;
  int n = s.ad.calcRefinement(prm,2,s.gNorm,ref,100);
  marked(prm,n,e,50.0,s.ad.threshold);
}

//! True beta refinement hands over all element errors
CONTRACT(H_true_beta)
{
  int N = vc_pick("elements",1,3);
  IntVec ids;
  for (int i = 1; i <= N; i++) ids.push_back(i);
  Setup s(N,ids);
  Vector ref(N);
  for (int i = 0; i < N; i++) ref[i] = vc_real("e");
  s.ad.threshold = AdaptiveSetup::TRUE_BETA;
  LR::RefineData prm;
  vc_eqi(s.ad.calcRefinement(prm,2,s.gNorm,ref,100),N,"number of errors");
  vc_eqi(prm.errors.size(),N,"number of errors");
  for (int i = 0; i < N && i < (int)prm.errors.size(); i++) vc_eq(prm.errors[i],ref[i],"errors");
  vc_true(prm.elements.empty(),"no list of elements");
}

//! The refinement stops at the given limits, and only there
CONTRACT(H_stop)
{
  Setup s(2,{1,2});
  Vector ref(2);
  ref[0] = 1.0; ref[1] = 2.0;
  double err = vc_real("error"), tol = vc_real("tolerance"), rn = vc_real("reference"), rc = vc_real("rCond"), cl = vc_real("limit");
  vc_assume(err >= 0.0); vc_assume(tol > 0.0); vc_assume(rc > 1.0e-9); vc_assume(cl > 1.0);
  vc_assume(err < 1.0e6); vc_assume(tol < 1.0e6); vc_assume(rn < 1.0e6); vc_assume(rn > -1.0e6); vc_assume(rc <= 1.0); vc_assume(cl < 1.0e8);
  s.gNorm[1](2) = err;
  s.ad.errTol = tol;
  s.sim.refNorm = rn;
  s.ad.rCond = rc;
  s.ad.condLimit = cl;
  s.ad.maxStep = vc_int("maxStep",0,5);
  s.ad.maxDOFs = vc_int("maxDOFs",0,200);
  int iStep = vc_int("step",1,6), dofs = vc_int("dofs",0,250);
  int what = vc_pick("input",0,4);
  if (what == 1) s.ad.adaptor = 2;
  if (what == 2) ref.clear();
  if (what == 3) { s.ad.adaptor = 0; s.gNorm[0](2) = err; }
  if (what == 4) { s.ad.adaptor = 0; s.gNorm[0](2) = err; s.sim.ana = true; }
  s.ad.beta = 50.0;
  LR::RefineData prm;
  prm.elements = { 77 };
  int n = s.ad.calcRefinement(prm,iStep,s.gNorm,ref,dofs);
  if (what > 0 && what < 4) vc_eqi(n,0,"nothing to base the refinement on");
  else if (rn*0.01 < -1.0e-12) vc_true(n < 0,"a negative reference norm is an error");
  else {
    bool go = rn*0.01 >= 1.0e-12 && iStep <= s.ad.maxStep && dofs <= s.ad.maxDOFs && err >= tol*rn*0.01 && 1.0/rc <= cl;
    vc_eqi(n,go ? 1 : 0,"stops when and only when a limit is reached");
    if (go) vc_cover("refines");
    else vc_cover("stops");
  }
  vc_eqi(prm.elements.size(),n > 0 ? n : 0,"marked elements");
  if (n > 0 && !prm.elements.empty()) vc_eqi(prm.elements[0],1,"the largest error");
}

//! The refinement percentage may be a function of the step
CONTRACT(H_percentage)
{
  Setup s(4,{1,2,3,4});
  Vector ref(4);
  for (int i = 0; i < 4; i++) ref[i] = 4.0-i;
  s.ad.betaFunc = new RampFunc(100.0,4.0); // 25 % more in each step
  int step = vc_pick("step",2,5);
  LR::RefineData prm;
  vc_eqi(s.ad.calcRefinement(prm,step,s.gNorm,ref,100),step-1,"number of marked elements");
  vc_eqi(prm.options.size(),8,"number of options");
  vc_eqi(prm.options[0],25*(step-1),"percentage");
  vc_eqi(prm.options[1],s.ad.knot_mult,"multiplicity");
  vc_eqi(prm.options[2],s.ad.scheme,"scheme");
}
