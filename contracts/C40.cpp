// VC-TU: src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/DiagMatrix.C src/ASM/AlgEqSystem.C src/ASM/ElmMats.C src/ASM/GlbNorm.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/LinAlg/SAM.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-INCLUDE: sam.inc patch.inc
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 200
// VC-ASSUME: the integration over one patch or boundary (ASMbase::integrate, evalSolution) is replaced by a recorder that adds arbitrary contributions
#include "vc.h"
#include "sam.inc"
#include "patch.inc"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "AlgEqSystem.h"
#include "DenseMatrix.h"
#include "ElmMats.h"
#include "ElmNorm.h"
#include "GlbNorm.h"
#include "Fields.h"
#include "Tensor.h"
#include "GlbL2projector.h"
#include "Function.h"
#include "Functions.h"
#include "IntegrandBase.h"
#include "IFEM.h"
#include "Profiler.h"
#include <iostream>
#include <string>
#include <cmath>

int LocalSystem::patch = 0;
LinSolParams* GlbL2::SolverParams = nullptr;
const ProcessAdm* GlbL2::Adm = nullptr;
SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

namespace {

//! What is known when one part of the model is integrated
struct Event
{
  char kind;       // (I)nterior, (B)oundary, (E)dge, in(T)erfaces, start (S) and finish (F) of the equation system
  int integrand;   // code of the integrand
  int patch;       // one-based patch index
  int lindex;
  int material;    // the material initialized last
  int load;        // the Neumann property initialized last
  int bodyLoad;    // patch of which the body loads have been initialized last
  int ready;       // patch the integrand has been initialized for
  std::vector<int> group; // active elements
  Vectors sol, prj;
};

std::vector<Event> events;
int curMaterial, curLoad, curBody, failAt, lastInit;
Real gain = 0.0;

class Prob : public IntegrandBase
{
public:
  int code, ready = 0, lhs = -1, type = STANDARD, parts = 3;
  std::vector<int> nodes;
  Prob(int c, size_t ns = 1) : IntegrandBase(1), code(c) { primsol.resize(ns); }
  void initForPatch(const ASMbase* pch) override { ready = pch->idx+1; }
  void initNodeMap(const std::vector<int>& n) override { nodes = n; }
  bool hasInteriorTerms() const override { return parts & 1; }
  bool hasBoundaryTerms() const override { return parts & 2; }
  int getIntegrandType() const override { return type; }
  void initLHSbuffers(size_t n) override { lhs = n; }
  size_t getNoFields(int fld) const override { return fld == 2 ? 2 : 1; }
  NormBase* norm = nullptr;
  NormBase* getNormIntegrand(AnaSol*) const override { return norm; }
  ForceBase* getForceIntegrand(const Vec3*, AnaSol* = nullptr) const override { return nullptr; }
};

class Norm : public NormBase
{
public:
  Prob& p;
  std::vector<size_t> size;
  bool bou;
  Norm(Prob& pr, const std::vector<size_t>& s, bool b, ASM::FinalNormOp op) : NormBase(pr), p(pr), size(s), bou(b) { finalOp = op; }
  void initForPatch(const ASMbase* pch) override { p.ready = pch->idx+1; }
  bool hasBoundaryTerms() const override { return bou; }
  size_t getNoFields(int group) const override { return group == 0 ? size.size() : (group <= (int)size.size() ? size[group-1] : 0); }
};

//! Projected fields, just the values
class PatchFields : public Fields
{
public:
  explicit PatchFields(const Vector& v) { values = v; }
  bool valueNode(size_t, Vector&) const override { return false; }
  bool valueFE(const ItgPoint&, Vector&) const override { return false; }
  bool valueCoor(const Vec4&, Vector&) const override { return false; }
  bool gradFE(const ItgPoint&, Matrix&) const override { return false; }
  bool hessianFE(const ItgPoint&, Matrix3D&) const override { return false; }
};

class Patch : public TestPatch
{
public:
  bool none = false, separate = false;
  size_t nproj = 0;
  std::vector<int> set;
  std::vector<double> norms;  // the contributions of the element of this patch
  Matrix second;              // the secondary solution
  int quad = 0;
  double lastTime = 0.0;
  std::vector<char> method;
  Patch(const IntVec& nodes, const IntMat& elms, int firstElm, unsigned char dim, unsigned char nf = 1) : TestPatch(nf,nodes,elms,firstElm)
  {
    const_cast<unsigned char&>(ndim) = dim;
  }
  bool empty() const override { return none; }
  const IntVec& getElementSet(int i) const override { static IntVec s; s = set; if (i > 1) s.push_back(1); return s; }
  bool record(char kind, Integrand& itg, int lindex, GlobalIntegral& glb)
  {
    Event e;
    NormBase* nrm = dynamic_cast<NormBase*>(&itg);
    Prob* p = static_cast<Prob*>(nrm ? &nrm->myProblem : &itg);
    e.kind = kind;
    e.integrand = p->code;
    e.patch = idx+1;
    e.lindex = lindex;
    e.material = curMaterial; e.load = curLoad; e.bodyLoad = curBody;
    e.ready = p->ready;
    e.group = p->elmGrp;
    e.sol = p->primsol;
    if (nrm) for (size_t k = 0; k < nrm->prjsol.size(); k++)
      e.prj.push_back(nrm->prjFld[k] ? static_cast<PatchFields*>(nrm->prjFld[k])->values : nrm->prjsol[k]);
    events.push_back(e);
    if (failAt >= 0 && (int)events.size() > failAt) return false;
    if (!nrm) return true;
    for (int iel : MLGE) {
      LocalIntegral* A = itg.getLocalIntegral(1,iel,kind != 'I');
      ElmNorm& en = static_cast<ElmNorm&>(*A);
      for (size_t i = 0; i < en.size() && i < norms.size(); i++)
        en[i] += norms[i];
      if (!glb.assemble(A,iel)) return false;
      A->destruct();
    }
    return true;
  }
  bool integrate(Integrand& i, GlobalIntegral& g, const TimeDomain&) override { return this->record('I',i,0,g); }
  bool integrate(Integrand& i, int l, GlobalIntegral& g, const TimeDomain&) override { return this->record('B',i,l,g); }
  bool integrateEdge(Integrand& i, int l, GlobalIntegral& g, const TimeDomain&) override { return this->record('E',i,l,g); }
  bool integrate(Integrand& i, GlobalIntegral& g, const TimeDomain&, const ASM::InterfaceChecker&) override { return this->record('T',i,0,g); }
  bool evaluate(const FunctionBase* f, RealArray& v, int basis, double t) const override;
  size_t getNoProjectionNodes() const override { return separate ? nproj : this->getNoNodes(); }
  bool separateProjectionBasis() const override { return separate; }
  Fields* getProjectedFields(const Vector& v, size_t) const override { return new PatchFields(v); }
  bool evalSolution(Matrix& f, const IntegrandBase& itg, const int*, char m) const override
  {
    Patch& p = const_cast<Patch&>(*this);
    IntegrandBase& i = const_cast<IntegrandBase&>(itg);
    Event e = { 'P', 0, (int)idx+1, 0, curMaterial, curLoad, curBody, 0, {}, i.primsol, {} };
    events.push_back(e);
    p.method.push_back(m);
    f = second;
    return failAt < 0 || (int)events.size() <= failAt;
  }
};

//! Remembers when the equation system is started and finished
class Matr : public DenseMatrix
{
public:
  explicit Matr(size_t n) : DenseMatrix(n,n) {}
  void init() override { events.push_back({ 'S', -1, 0, 0, 0, 0, 0, 0, {}, {}, {} }); this->DenseMatrix::init(); }
  bool endAssembly() override { events.push_back({ 'F', -1, 0, 0, 0, 0, 0, 0, {}, {}, {} }); return this->DenseMatrix::endAssembly(); }
};

struct NoCheck : public ASM::InterfaceChecker
{
  short int hasContribution(int, int, int, int) const override { return 0; }
};

struct Later : public IntFunc
{
  Real evaluate(const int&) const override { return 1.0; }
};

//! A function defined patch by patch
class PatchFunc : public RealFunc
{
public:
  size_t pidx = 99;
  explicit PatchFunc(size_t n) { ncmp = n; }
  bool initPatch(size_t p) override { pidx = p; return true; }
  Real evaluate(const Vec3&) const override { return 0.0; }
};

bool Patch::evaluate(const FunctionBase* f, RealArray& v, int basis, double t) const
{
  Patch& p = const_cast<Patch&>(*this);
  size_t pf = dynamic_cast<const PatchFunc*>(f)->pidx;
  events.push_back({ 'V', 0, (int)idx+1, basis, curMaterial, curLoad, curBody, (int)pf+1, {}, {}, {} });
  p.lastTime = t;
  v.assign(second.ptr(),second.ptr()+second.size());
  return failAt < 0 || (int)events.size() <= failAt;
}

class Model : public SIMdummy<SIMgeneric>
{
public:
  Prob* prob;
  std::vector<Patch*> patches;
  size_t nn = 0;
  Model(int npch, unsigned char dim, size_t nsol = 1, int firstCode = 0)
  {
    myProblem = prob = new Prob(firstCode,nsol); // owned by the base class
    events.clear();
    curMaterial = curLoad = curBody = -1;
    failAt = -1;
    msgLevel = 0;
    opt.project.clear();
    nsd = 1;
    // a chain of patches with one element each
    TModel tm;
    tm.elems.resize(npch);
    for (int i = 0; i < npch; i++) {
      Patch* p = new Patch({ i+1, i+2 },{ { 0,1 } },1+(i+1)%npch,dim);
      p->idx = i;
      p->set = { 1 }; // internal element index
      patches.push_back(p);
      myModel.push_back(p);
      tm.elems[p->MLGE.front()-1] = { i+1,i+2 };
    }
    nGlPatches = npch;
    nn = npch+1;
    tm.nd.assign(nn,1);
    tm.kind.assign(nn,'1');
    tm.derive();
    mySam = new TSam(tm);
  }
  bool initMaterial(size_t i) override { curMaterial = i; return true; }
  bool initNeumann(size_t i) override { curLoad = i; return true; }
  bool initBodyLoad(size_t p) override { curBody = p; return true; }
  ASM::InterfaceChecker* getInterfaceChecker(size_t) const override { return new NoCheck; }
  //! The part of a global vector that belongs to a patch
  Vector local(const Vector& u, int p) const
  {
    Vector v;
    if (u.empty()) return v;
    size_t nc = u.size()/nn;
    for (int n = p-1; n <= p; n++) for (size_t c = 0; c < nc; c++) v.push_back(u[n*nc+c]);
    return v;
  }
};

void same(const Vector& a, const Vector& b, const char* label)
{
  vc_eqi(a.size(),b.size(),label);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) vc_eq(a[i],b[i],label);
}

//! The solutions of the patch are those given, and none beyond
void checkSol(const Model& m, const Event& e, const Vectors& u)
{
  for (size_t i = 0; i < e.sol.size(); i++)
    same(e.sol[i],i < u.size() ? m.local(u[i],e.patch) : Vector(),"the solution of the patch");
}

Vectors arbSol(const Model& m, int n)
{
  Vectors u(n);
  for (Vector& v : u) { v.resize(m.nn); vc_fill(v.ptr(),m.nn,"u"); }
  return u;
}

//! Material regions
void addMaterials(Model& m, int which, int code = 0)
{
  int np = m.patches.size();
  switch (which) {
  case 1: // one for each patch, in reverse order
    for (int p = np; p > 0; p--) m.myProps.push_back(Property(Property::MATERIAL,code+p,p,m.patches.front()->getNoParamDim()));
    break;
  case 2: // two element sets in the first patch, and one region for each of the others
    m.myProps.push_back(Property(Property::MATERIAL,code+7,1,5,1));
    m.myProps.push_back(Property(Property::MATERIAL,code+8,1,5,2));
    for (int p = 2; p <= np; p++) m.myProps.push_back(Property(Property::MATERIAL,code+p,p,m.patches.front()->getNoParamDim()));
    break;
  case 3: // last patch first, with an element set last
    for (int p = 2; p <= np; p++) m.myProps.push_back(Property(Property::MATERIAL,code+p,p,m.patches.front()->getNoParamDim()));
    m.myProps.push_back(Property(Property::MATERIAL,code+9,1,5,2));
  }
}

}

// Interior, boundary and edge terms are integrated once for each patch and property, with the data of the patch and property
CONTRACT(H_assemble)
{
  int np = vc_pick("patches",1,3), dim = vc_pick("dimension",1,3), nu = vc_pick("solutions",0,2), noPatch = vc_pick("empty patch",0,2);
  int mat = vc_pick("materials",0,3), bou = vc_pick("boundaries",0,3), nitg = vc_pick("integrands",1,2);
  if (noPatch > np || (noPatch && noPatch == np && np == 1)) return;
  int parts = vc_pick("terms",0,3);
  if (!vc_thorough()) {
    if (np == 1 || (np == 3) != (noPatch == 2) || (nitg == 2 && (nu == 2 || noPatch))) return;
    if ((dim > 1 && bou < 2) || (nu != 1 && mat != 0) || (parts != 3 && (mat > 1 || bou > 1))) return;
  }
  Model m(np,dim,2);
  if (noPatch) m.patches[noPatch-1]->none = true;
  m.setMode(SIM::STATIC);
  Prob* other = nullptr;
  if (nitg == 2) m.myInts.emplace(2,other = new Prob(2,1));
  m.prob->parts = parts;
  addMaterials(m,mat);
  if (bou > 0) {
    for (int p = np; p > 0; p--) m.myProps.push_back(Property(Property::NEUMANN,10+p,p,bou == 2 ? 1-dim : dim-1,p));
    m.myProps.push_back(Property(Property::NEUMANN,20,1,dim-1,2));
    m.myProps.push_back(Property(Property::NEUMANN_GENERIC,2,1,dim-1,3));
    m.myProps.push_back(Property(Property::ROBIN,2,np,dim-1,4));
    m.myProps.push_back(Property(Property::DIRICHLET,0,np,dim-1,4));
    if (bou == 3) m.myProps.push_back(Property(Property::NEUMANN,30,np,1,5)); // edge of a solid, edge of a surface, all of a line
  }
  Vectors u = arbSol(m,nu);
  TimeDomain time;
  vc_true(m.assembleSystem(time,u),"assembled");
  // what should have been integrated
  size_t k = 0;
  for (int itg = 0; itg < 3; itg++) {
    if (itg == 1 || (itg == 2 && !other)) continue;
    Prob* prob = itg ? other : m.prob;
    vc_eqi(prob->lhs,1,"left-hand-side buffers are initialized");
    std::vector<const Property*> mats;
    for (const Property& p : m.myProps)
      if (p.pcode == Property::MATERIAL && (itg == 0 || p.pindx == itg) && !m.patches[p.patch-1]->none) mats.push_back(&p);
    std::vector<int> seen(np,0);
    if (prob->parts & 1) {
      size_t ni = !mats.empty() || itg ? mats.size() : np - (noPatch ? 1 : 0);
      for (size_t i = 0; i < ni; i++, k++) {
        vc_true(k < events.size() && events[k].kind == 'I',"interior terms first");
        if (k >= events.size()) return;
        const Event& e = events[k];
        vc_eqi(e.integrand,itg,"integrand");
        checkSol(m,e,u);
        vc_eqi(e.ready,e.patch,"the integrand is initialized for the patch");
        vc_eqi(e.bodyLoad,e.patch,"the body loads of the patch are initialized");
        vc_true(!m.patches[e.patch-1]->none,"no integration of empty patches");
        ++seen[e.patch-1];
        if (!mats.empty()) {
          vc_eqi(e.patch,mats[i]->patch,"patch of the material region");
          vc_eqi(e.material,mats[i]->pindx,"material of the region");
          bool set = mats[i]->ldim == 5;
          vc_eqi(e.group.size(),set ? mats[i]->lindx : 0,"the elements of the region are active");
          for (int iel : e.group) vc_eqi(iel,m.patches[e.patch-1]->MLGE.front(),"the elements of the region are active");
        }
        else
          vc_true(e.group.empty(),"all elements are active");
      }
      for (int p = 0; p < np && mats.empty() && !itg; p++)
        vc_eqi(seen[p],!m.patches[p]->none,"each patch is integrated once");
    }
    for (const Property& p : m.myProps) {
      bool natural = itg == 0 && p.pcode == Property::NEUMANN;
      bool special = itg == 2 && p.pindx == 2 && (p.pcode == Property::NEUMANN_GENERIC || p.pcode == Property::ROBIN);
      if (!natural && !special) continue;
      if (!(prob->parts & 2) || m.patches[p.patch-1]->none) continue;
      int ld = p.ldim < 0 ? -p.ldim : p.ldim;
      char kind = ld+1 == dim ? 'B' : (ld == 1 && dim == 3 ? 'E' : 0);
      if (!kind) continue;
      vc_true(k < events.size() && events[k].kind == kind,"boundary terms");
      if (k >= events.size()) return;
      const Event& e = events[k++];
      vc_eqi(e.integrand,itg,"integrand of the boundary");
      vc_eqi(e.patch,p.patch,"patch of the boundary");
      vc_eqi(e.lindex,p.lindx,"boundary index");
      if (p.pcode != Property::NEUMANN_GENERIC) vc_eqi(e.load,p.pindx,"the load of the boundary");
      checkSol(m,e,u);
      vc_eqi(e.ready,e.patch,"the integrand is initialized for the patch");
      vc_true(e.group.empty(),"all elements are active on boundaries");
      for (const Property& q : m.myProps)
        if (q.pcode == Property::MATERIAL && q.patch == p.patch) { vc_eqi(e.material,q.pindx,"material at the boundary"); break; }
    }
  }
  vc_eqi(events.size(),k,"nothing else is integrated");
  vc_cover("assembled");
}

// The equation system is started before and finished after everything else, unless it is shared with other simulators
CONTRACT(H_assemble_system)
{
  int np = 2, flag = vc_pick("sequence flag",0,3), newLHS = vc_pick("new left-hand-side",0,1), mode = vc_pick("mode",0,3);
  int type = vc_pick("interfaces",0,1), fail = vc_pick("failure",-1,4);
  SIM::SolutionMode modes[4] = { SIM::STATIC, SIM::RHS_ONLY, SIM::RECOVERY, SIM::INIT };
  Model m(np,1);
  m.setMode(modes[mode]);
  m.setMDflag(flag);
  if (type) m.prob->type = IntegrandBase::INTERFACE_TERMS;
  m.myProps.push_back(Property(Property::NEUMANN,5,2,0,1));
  m.myEqSys = new AlgEqSystem(*m.mySam);
  m.myEqSys->A.resize(1);
  m.myEqSys->A.front()._A = new Matr(m.nn);
  m.myEqSys->A.front()._b = new StdVector(m.nn);
  m.myEqSys->b.push_back(m.myEqSys->A.front()._b);
  Vectors u = arbSol(m,1);
  TimeDomain time;
  bool assembling = mode < 2;
  std::string want;
  if (assembling && flag <= 1 && newLHS) want += 'S';
  int first = want.size();
  for (int p = 1; p <= np; p++) want += type ? "IT" : "I";
  want += 'B';
  if (fail >= 0) failAt = first+fail;
  bool ok = fail < 0 || first+fail >= (int)want.size();
  if (!ok) want = want.substr(0,first+fail+1);
  else if (assembling && flag%2 == 0 && newLHS) want += 'F';
  bool stat = m.assembleSystem(time,u,newLHS);
  std::string have;
  for (const Event& e : events) have += e.kind;
  vc_eqi(stat,ok,"a failure is reported");
  vc_true(have == want,"sequence of the assembly");
  vc_cover("assembled");
}

// Norms are integrated over each patch and Neumann boundary once, with the solution and the projected solutions of the patch
CONTRACT(H_norms)
{
  int np = vc_pick("patches",1,3), mat = vc_pick("materials",0,3), bou = vc_pick("boundaries",0,1), noPatch = vc_pick("empty patch",0,2);
  int nprj = vc_pick("projections",0,2), sep = vc_pick("projection basis",0,1), comp = vc_pick("components",1,2), elm = vc_pick("element norms",0,1);
  int none = nprj > 0 ? vc_pick("projection without values",0,1) : 0;
  if (noPatch >= np && noPatch) return;
  if (!vc_thorough() && (np == 3) != (noPatch == 2)) return;
  if (!vc_thorough() && ((elm && mat) || (none && mat != 1))) return;
  int dim = bou ? vc_pick("dimension",2,3) : 1, nu = 1;
  Model m(np,dim,2);
  Model::ignoreDirichlet = false;
  m.setMode(SIM::RECOVERY);
  if (noPatch) m.patches[noPatch-1]->none = true;
  for (Patch* p : m.patches) { p->separate = sep; p->nproj = 1+p->idx; }
  addMaterials(m,mat);
  if (bou) {
    for (int p = np; p > 0; p--) m.myProps.push_back(Property(Property::NEUMANN,10+p,p,dim-1,p));
    if (dim == 3) m.myProps.push_back(Property(Property::NEUMANN,30,1,1,5));
    m.myProps.push_back(Property(Property::NEUMANN_GENERIC,2,1,dim-1,3));
  }
  Vectors u = arbSol(m,nu), s(nprj);
  size_t nfld = sep ? 2 : comp, total = 0;
  std::vector<size_t> ofs;
  for (Patch* p : m.patches) { ofs.push_back(total); if (!p->none) total += nfld*p->nproj; }
  if (!sep) total = m.nn*nfld;
  for (int k = 0; k < nprj; k++) {
    m.opt.project[none && k == 0 ? SIMoptions::GLOBAL : (k == 0 ? SIMoptions::DGL2 : SIMoptions::SCR)] = "";
    if (none && k == 0) continue;
    s[k].resize(total);
    vc_fill(s[k].ptr(),total,"s");
  }
  std::vector<size_t> sizes(1+nprj,2);
  sizes.front() = 1;
  Prob* prob = m.prob;
  m.prob->norm = new Norm(*prob,sizes,bou,ASM::NONE);
  size_t nNorms = 0;
  for (int k = 0; k <= nprj; k++) if (k == 0 || !s[k-1].empty()) nNorms += sizes[k];
  for (Patch* p : m.patches) {
    p->norms.resize(nNorms);
    for (double& v : p->norms) v = vc_real("norm");
  }
  Vectors gNorm;
  Matrix eNorm;
  TimeDomain time;
  vc_true(m.solutionNorms(time,u,s,gNorm,elm ? &eNorm : nullptr),"norms integrated");
  std::vector<const Property*> mats;
  for (const Property& p : m.myProps)
    if (p.pcode == Property::MATERIAL && !m.patches[p.patch-1]->none) mats.push_back(&p);
  std::vector<int> seen(np,0), times(np,0);
  size_t k = 0, ni = !mats.empty() ? mats.size() : np - (noPatch ? 1 : 0);
  auto&& checkEvent = [&](const Event& e)
  {
    checkSol(m,e,u);
    vc_eqi(e.ready,e.patch,"the integrand is initialized for the patch");
    vc_true(!m.patches[e.patch-1]->none,"no integration of empty patches");
    vc_eqi(e.prj.size(),nprj,"number of projections");
    for (int q = 0; q < nprj && q < (int)e.prj.size(); q++)
      if (s[q].empty())
        vc_true(e.prj[q].empty(),"no projected solution");
      else if (sep) {
        Vector v;
        for (size_t i = 0; i < nfld*m.patches[e.patch-1]->nproj; i++) v.push_back(s[q][ofs[e.patch-1]+i]);
        same(e.prj[q],v,"the projected solution of the patch");
      }
      else
        same(e.prj[q],m.local(s[q],e.patch),"the projected solution of the patch");
    ++times[e.patch-1];
  };
  for (size_t i = 0; i < ni; i++, k++) {
    vc_true(k < events.size() && events[k].kind == 'I',"interior terms first");
    if (k >= events.size()) return;
    const Event& e = events[k];
    checkEvent(e);
    ++seen[e.patch-1];
    if (!mats.empty()) {
      vc_eqi(e.patch,mats[i]->patch,"patch of the material region");
      vc_eqi(e.material,mats[i]->pindx,"material of the region");
      bool set = mats[i]->ldim == 5;
      vc_eqi(e.group.size(),set ? mats[i]->lindx : 0,"the elements of the region are active");
      for (int iel : e.group) vc_eqi(iel,m.patches[e.patch-1]->MLGE.front(),"the elements of the region are active");
    }
    else
      vc_true(e.group.empty(),"all elements are active");
  }
  for (int p = 0; p < np && mats.empty(); p++)
    vc_eqi(seen[p],!m.patches[p]->none,"each patch is integrated once");
  for (const Property& p : m.myProps) {
    if (p.pcode != Property::NEUMANN || m.patches[p.patch-1]->none) continue;
    char kind = p.ldim+1 == dim ? 'B' : 'E';
    vc_true(k < events.size() && events[k].kind == kind,"boundary terms");
    if (k >= events.size()) return;
    const Event& e = events[k++];
    checkEvent(e);
    vc_eqi(e.patch,p.patch,"patch of the boundary");
    vc_eqi(e.lindex,p.lindx,"boundary index");
    vc_eqi(e.load,p.pindx,"the load of the boundary");
    vc_true(e.group.empty(),"all elements are active on boundaries");
  }
  vc_eqi(events.size(),k,"nothing else is integrated");
  // the norms are the sums of the contributions
  vc_eqi(gNorm.size(),1+nprj,"number of norm groups");
  size_t n = 0;
  for (size_t g = 0; g < gNorm.size(); g++) {
    vc_eqi(gNorm[g].size(),g == 0 || !s[g-1].empty() ? sizes[g] : 0,"size of the norm group");
    for (size_t i = 0; i < gNorm[g].size() && n < nNorms; i++, n++) {
      double sum = 0.0;
      for (int p = 0; p < np; p++) sum += times[p]*m.patches[p]->norms[n];
      vc_eq(gNorm[g][i],sum,"global norm");
      if (elm)
        for (int p = 0; p < np; p++)
          vc_eq(eNorm(n+1,m.patches[p]->MLGE.front()),times[p]*m.patches[p]->norms[n],"element norm");
    }
  }
  vc_cover("norms");
}

// The projected solution of a node is the average of the values from the patches it belongs to,
// and for a separate projection basis it is the values of the patches one after the other
CONTRACT(H_project)
{
  int np = vc_pick("patches",1,3), sep = vc_pick("projection basis",0,1), noPatch = vc_pick("empty patch",0,2), off = vc_pick("inactive patch",0,3);
  static const SIMoptions::ProjectionMethod methods[5] = { SIMoptions::GLOBAL, SIMoptions::SCR, SIMoptions::VDSA, SIMoptions::QUASI, SIMoptions::LEASTSQ };
  static const char flag[5] = { 0, 'S', 'A', 'L', 'W' };
  int meth = vc_pick("method",0,4), fail = vc_pick("failure",-1,1), mat = vc_pick("materials",0,1);
  if (noPatch > np || off > np || (noPatch && np == 1)) return;
  if (!vc_thorough() && (meth > 0) + (fail >= 0) + (mat > 0) > 1) return;
  Model m(np,1,2);
  m.setMode(SIM::RECOVERY);
  if (noPatch) m.patches[noPatch-1]->none = true;
  addMaterials(m,mat);
  int nf = 2;
  for (Patch* p : m.patches) {
    p->separate = sep; p->nproj = 1+p->idx;
    size_t n = p->getNoProjectionNodes();
    p->second.resize(nf,n);
    vc_fill(p->second.ptr(),nf*n,"s");
  }
  if (off) m.patches[off-1]->setElementActivator(new Later);
  Vectors u = arbSol(m,1);
  Matrix ssol;
  if (fail >= 0) failAt = fail;
  TimeDomain time;
  time.t = 0.0;
  bool stat = m.project(ssol,u.front(),methods[meth],time);
  std::vector<int> used;
  for (int p = 1; p <= np; p++) if (p != noPatch && p != off) used.push_back(p);
  bool ok = fail < 0 || fail >= (int)used.size();
  vc_eqi(stat,ok,"a failure is reported");
  vc_eqi(events.size(),ok ? used.size() : fail+1,"each active patch is projected once");
  for (size_t i = 0; i < events.size() && i < used.size(); i++) {
    vc_eqi(events[i].patch,used[i],"each active patch is projected once");
    checkSol(m,events[i],u);
    if (mat) vc_eqi(events[i].material,used[i],"material of the patch");
    vc_eqi(m.patches[used[i]-1]->method.size(),1,"each active patch is projected once");
    vc_eqi(m.patches[used[i]-1]->method.back(),flag[meth],"method of projection");
  }
  if (!ok || used.empty()) return;
  vc_eqi(ssol.rows(),nf,"number of components");
  size_t ncol = m.nn;
  if (sep) { ncol = 0; for (Patch* p : m.patches) if (!p->none) ncol += p->nproj; }
  vc_eqi(ssol.cols(),ncol,"number of nodes");
  if ((int)ssol.rows() != nf || ssol.cols() != ncol) return;
  if (sep) {
    size_t c = 0;
    for (int p = 1; p <= np; p++) {
      if (p == noPatch) continue;
      for (size_t i = 1; i <= m.patches[p-1]->nproj; i++, c++)
        for (int j = 1; j <= nf; j++)
          vc_eq(ssol(j,c+1),p == off ? 0.0 : m.patches[p-1]->second(j,i),"values of the patches one after the other");
    }
  }
  else
    for (size_t n = 1; n <= m.nn; n++)
      for (int j = 1; j <= nf; j++) {
        double sum = 0.0;
        int cnt = 0;
        for (int p : used)
          if ((int)n == p || (int)n == p+1) { sum += m.patches[p-1]->second(j,n-p+1); ++cnt; }
        vc_eq(ssol(j,n)*(cnt > 0 ? cnt : 1),sum,"average of the patches");
      }
  vc_cover("projected");
}

// A function is projected onto each active patch, all of the field or one component of it, leaving everything else as is
CONTRACT(H_project_function)
{
  int np = vc_pick("patches",1,3), noPatch = vc_pick("empty patch",0,np == 1 ? 0 : 2), off = vc_pick("inactive patch",0,np), nf = vc_pick("fields",1,3), nc = vc_pick("components",1,3);
  int fld = vc_pick("field component",-1,3), fail = np == 2 ? vc_pick("failure",-1,1) : -1, meth = np == 1 ? vc_pick("method",0,2) : 0, basis = np == 2 ? vc_pick("basis",0,1) : 0;
  if (noPatch > np || off > np || (noPatch && np == 1)) return;
  if (fld < 0 && nc != nf) return; // all components of the field at once
  if (!vc_thorough() && ((meth > 0 && (np > 1 || fld > 0 || nf > 1 || fail >= 0)) || (fail >= 0 && (np != 2 || basis || noPatch || nf != 2)) ||
                         (noPatch && off == noPatch) || (np == 3 && (nc == 3 || nf == 3 || noPatch == 1)) || (basis && np != 2))) return;
  Model m(np,1,2);
  if (noPatch) m.patches[noPatch-1]->none = true;
  if (off) m.patches[off-1]->setElementActivator(new Later);
  for (Patch* p : m.patches) {
    p->nf = nf;
    p->second.resize(nc,2);
    vc_fill(p->second.ptr(),2*nc,"f");
  }
  int nFields = fld < 0 ? 0 : nf;
  RealArray v(nf*m.nn);
  vc_fill(v.data(),v.size(),"v");
  RealArray now(v);
  PatchFunc f(nc);
  double t = vc_real_range("t",0.0,0.9);
  failAt = fail;
  static const SIMoptions::ProjectionMethod methods[3] = { SIMoptions::GLOBAL, SIMoptions::SCR, SIMoptions::DGL2 };
  std::vector<int> used;
  for (int p = 1; p <= np; p++) if (p != noPatch && p != off) used.push_back(p);
  bool ok = true, refused = false;
  if (!used.empty() && meth > 0) ok = false; // no such method for functions
  else if (!used.empty() && nFields > nc && (nc > 1 || fld >= nFields)) { ok = false; refused = true; }
  bool stat = m.project(v,&f,basis,fld < 0 ? 0 : fld,nFields,methods[meth],t);
  bool stop = ok && fail >= 0 && fail < (int)used.size();
  vc_eqi(stat,ok && !stop,"what can not be projected is reported");
  size_t n = !used.empty() && meth > 0 ? 0 : (refused ? 1 : (stop ? fail+1 : used.size()));
  vc_eqi(events.size(),n,"each active patch is projected once");
  for (size_t i = 0; i < events.size() && i < n; i++) {
    int p = used[i];
    const Event& e = events[i];
    vc_eqi(e.patch,p,"each active patch is projected once");
    vc_eqi(e.ready,p,"the patch is activated in the function");
    vc_eqi(e.lindex,basis,"basis to project onto");
    vc_eq(m.patches[p-1]->lastTime,t,"time of the function");
    for (int k = 0; k < 2 && !refused; k++)
      if (nFields <= nc)
        for (int j = 0; j < nc; j++) { size_t d = (p-1+k)*nc+j; if (d < now.size()) now[d] = m.patches[p-1]->second(1+j,1+k); }
      else
        now[(p-1+k)*nf+fld] = m.patches[p-1]->second(1,1+k);
  }
  if (nFields > 0 && nFields <= nc && nc != nf) return; // more components than in the field
  if (stop) return;
  vc_eqi(v.size(),now.size(),"size of the field");
  for (size_t i = 0; i < v.size() && i < now.size(); i++) vc_eq(v[i],now[i],"the last patch of a node decides, and everything else is kept");
}
