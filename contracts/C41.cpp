// VC-TU: src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/SIM/ForceIntegrator.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/DiagMatrix.C src/ASM/AlgEqSystem.C src/ASM/ElmMats.C src/ASM/GlbNorm.C src/ASM/GlbForceVec.C src/ASM/ReactionsOnly.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/ASM/IntegrandBase.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/LinAlg/SAM.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-INCLUDE: sam.inc patch.inc
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 200
// VC-ASSUME: the integration over one patch or boundary (ASMbase::integrate) and the topology of a patch boundary (ASMbase::getBoundaryNodes) are replaced by arbitrary contributions and node lists
#include "vc.h"
#include "sam.inc"
#include "patch.inc"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "AlgEqSystem.h"
#include "DenseMatrix.h"
#include "ElmMats.h"
#include "ElmNorm.h"
#include "ForceIntegrator.h"
#include "GlbForceVec.h"
#include "GlbL2projector.h"
#include "IntegrandBase.h"
#include "ReactionsOnly.h"
#include "Tensor.h"
#include "IFEM.h"
#include "Profiler.h"
#include <iostream>
#include <string>

int LocalSystem::patch = 0;
LinSolParams* GlbL2::SolverParams = nullptr;
const ProcessAdm* GlbL2::Adm = nullptr;
SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

namespace {

struct Event
{
  char kind; // (I)nterior or (B)oundary
  int patch, lindex, material;
  Vectors sol;
};

std::vector<Event> events;
int curMaterial, failAt;

class Force : public ForceBase
{
public:
  int comps, terms;
  Force(IntegrandBase& p, int n, int t) : ForceBase(p), comps(n), terms(t) {}
  size_t getNoComps() const override { return comps; }
  bool hasInteriorTerms() const override { return terms & 2; }
  bool hasBoundaryTerms() const override { return terms & 1; }
};

class Prob : public IntegrandBase
{
public:
  int comps = 2, terms = 1;
  bool noForce = false;
  bool* deleted = nullptr;
  std::unique_ptr<GlobalIntegral> second;
  int withSecond = 0;
  explicit Prob(size_t ns) : IntegrandBase(1) { primsol.resize(ns); }
  ForceBase* getForceIntegrand(const Vec3*, AnaSol* = nullptr) const override { return noForce ? nullptr : new Force(const_cast<Prob&>(*this),comps,terms); }
  ForceBase* getForceIntegrand() const override { return this->getForceIntegrand(nullptr); }
  void setSecondaryInt(GlobalIntegral* q = nullptr) override { second.reset(q); }
  GlobalIntegral& getGlobalInt(GlobalIntegral* q) const override { return !q && second ? *second : this->IntegrandBase::getGlobalInt(q); }
};

//! Element forces
struct Contribution : public ElmMats
{
  Vector f;
  Contribution() : ElmMats(false) { b.resize(1); }
  const Vector& getRHSVector() const override { return b.front(); }
};

class Patch : public TestPatch
{
public:
  std::vector<IntVec> bou, edge;   // global numbers of the nodes on each boundary, and of those of two dimensions less
  std::vector<Vector> force;       // forces of each boundary (0: the interior)
  std::vector<Vector> nodal;       // element vector of each boundary (0: the interior)
  double x0 = 0.0;
  Patch(const IntVec& nodes, unsigned char dim, const IntMat& elms = IntMat(), int firstElm = 1, unsigned char nf = 1) : TestPatch(nf,nodes,elms,firstElm)
  {
    const_cast<unsigned char&>(ndim) = dim;
  }
  Vec3 getCoord(size_t n) const override { return Vec3(x0+n,idx,n); }
  void getBoundaryNodes(int l, IntVec& nodes, int basis, int thick, int, bool local) const override
  {
    vc_true(basis == 0 && thick == 1 && !local,"the global nodes of one layer are asked for");
    if (l > 0 && l <= (int)bou.size()) nodes.insert(nodes.end(),bou[l-1].begin(),bou[l-1].end());
  }
  void getBoundary1Nodes(int l, IntVec& nodes, int basis, int, bool local, bool open) const override
  {
    vc_true(basis == 0 && !local && !open,"the global nodes including end points are asked for");
    if (l > 0 && l <= (int)edge.size()) nodes.insert(nodes.end(),edge[l-1].begin(),edge[l-1].end());
  }
  bool record(char kind, Integrand& itg, int l, GlobalIntegral& glb)
  {
    Force* frc = dynamic_cast<Force*>(&itg);
    Prob* p = static_cast<Prob*>(frc ? &frc->myProblem : &itg);
    events.push_back({ kind, (int)idx+1, l, curMaterial, p->primsol });
    if (failAt >= 0 && (int)events.size() > failAt) return false;
    if (!nodal.empty()) {
      for (int iel : MLGE) {
        Contribution c;
        if (l < (int)nodal.size()) c.b.front() = nodal[l];
        if (!glb.assemble(&c,iel)) return false;
      }
      return true;
    }
    for (int iel : MLGE) {
      LocalIntegral* A = itg.getLocalIntegral(1,iel,kind != 'I');
      ElmNorm& en = static_cast<ElmNorm&>(*A);
      if (l < (int)force.size())
        for (size_t i = 0; i < en.size() && i < force[l].size(); i++) en[i] += force[l][i];
      if (!glb.assemble(A,iel)) return false;
      A->destruct();
    }
    return true;
  }
  bool integrate(Integrand& i, GlobalIntegral& g, const TimeDomain&) override { return this->record('I',i,0,g); }
  bool integrate(Integrand& i, int l, GlobalIntegral& g, const TimeDomain&) override { return this->record('B',i,l,g); }
};

class Model : public SIMdummy<SIMgeneric>
{
public:
  Prob* prob;
  std::vector<Patch*> patches;
  explicit Model(size_t nsol = 1, int dim = 1)
  {
    myProblem = prob = new Prob(nsol); // owned by the base class
    events.clear();
    curMaterial = -1;
    failAt = -1;
    msgLevel = 0;
    nsd = dim;
  }
  Patch* add(const IntVec& nodes, unsigned char dim, const IntMat& elms = IntMat(), int firstElm = 1)
  {
    Patch* p = new Patch(nodes,dim,elms,firstElm);
    p->idx = patches.size();
    p->x0 = 100.0*p->idx;
    patches.push_back(p);
    myModel.push_back(p);
    nGlPatches = patches.size();
    return p;
  }
  bool initMaterial(size_t i) override { curMaterial = i; return true; }
};

bool has(const IntVec& v, int i)
{
  for (int j : v) if (i == j) return true;
  return false;
}

void same(const Vector& a, const Vector& b, const char* label)
{
  vc_eqi(a.size(),b.size(),label);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) vc_eq(a[i],b[i],label);
}

}

// The nodes of a property code are those of all its entities, each once, and with their coordinates
CONTRACT(H_boundary_nodes)
{
  int dim = vc_pick("dimension",1,3), np = vc_pick("patches",1,3), code = vc_pick("code",1,2);
  Model m;
  IntMat ids = { { 1,2,3,4 }, { 3,4,5,6 }, { 6,1,7,8 } };
  for (int i = 0; i < np; i++) {
    Patch* p = m.add(ids[i],dim);
    const IntVec& n = ids[i];
    p->bou  = { { n[0],n[1] }, { n[2],n[3] }, { n[1],n[2] } };
    p->edge = { { n[3] }, { n[0] }, { n[3],n[0] } };
    p->nodeSets.push_back(ASM::NodeSet("first",{ 2 }));
    p->nodeSets.push_back(ASM::NodeSet("second",{ 4,1 }));
  }
  // a selection of entities
  for (int e = 0; e < 3; e++) {
    int what = vc_pick("entity",0,6), pch = 1+(e*2+dim)%np, l = 1+(e+what)%3;
    Property::Type t = e == 1 ? Property::DIRICHLET : Property::NEUMANN;
    int ix = e == 2 ? -2 : 1;
    switch (what) {
    case 0: m.myProps.push_back(Property(t,ix,pch,dim-1,l)); break;
    case 1: m.myProps.push_back(Property(t,ix,pch,1-dim,10+l)); break; // in local axes
    case 2: m.myProps.push_back(Property(t,ix,pch,dim-2,l)); break;
    case 3: m.myProps.push_back(Property(t,ix,pch,dim,0)); break;
    case 4: m.myProps.push_back(Property(t,ix,pch,4,1+l%2)); break;
    case 5: m.myProps.push_back(Property(t,ix,np+1,dim-1,l)); break; // no such patch
    case 6: m.myProps.push_back(Property(t,ix,pch,5,1)); break;      // an element set
    }
    if (what == 2 && dim == 1) return; // no such entity
    if (!vc_thorough() && ((e == 0 && dim == 2 && what > 4) || (e == 1 && what == 6) || (e == 2 && what%2))) return;
  }
  IntVec want;
  std::vector<Vec3> coord;
  for (const Property& p : m.myProps) {
    if (abs(p.pindx) != code || (int)p.patch > np) continue;
    Patch* q = m.patches[p.patch-1];
    int ld = p.ldim < 0 ? -p.ldim : p.ldim, l = (p.lindx % 10);
    IntVec n;
    if (ld+1 == dim) n = q->bou[l-1];
    else if (ld+2 == dim) n = q->edge[p.lindx-1];
    else if (ld == dim) n = q->MLGN;
    else if (p.ldim == 4) { if (l == 1) n = { q->MLGN[1] }; else n = { q->MLGN[3], q->MLGN[0] }; }
    for (int i : n) if (!has(want,i)) {
      want.push_back(i);
      for (size_t k = 0; k < q->MLGN.size(); k++) if (q->MLGN[k] == i) coord.push_back(q->getCoord(k+1));
    }
  }
  IntVec nodes = { 77 };
  std::vector<Vec3> X(1);
  m.getBoundaryNodes(code,nodes,&X);
  vc_eqi(nodes.size(),want.size(),"each node of the entities once");
  for (int i : want) vc_true(has(nodes,i),"the nodes of the entities");
  vc_eqi(X.size(),nodes.size(),"one point for each node");
  for (size_t i = 0; i < X.size() && i < nodes.size(); i++)
    for (size_t k = 0; k < want.size(); k++)
      if (want[k] == nodes[i])
        for (int d = 0; d < 3; d++) vc_eq(X[i][d],coord[k][d],"coordinates of the node");
  IntVec nodes2;
  m.getBoundaryNodes(code,nodes2);
  vc_true(nodes == nodes2,"the coordinates are optional");
  vc_cover("nodes found");
}

// Named node sets are gathered from all patches
CONTRACT(H_node_sets)
{
  int np = vc_pick("patches",1,3), which = vc_pick("set",0,2);
  Model m;
  IntMat ids = { { 11,2,3,4 }, { 3,4,5,6 }, { 6,11,7,8 } };
  for (int i = 0; i < np; i++) {
    Patch* p = m.add(ids[i],1);
    if (vc_pick("defined",0,1)) p->nodeSets.push_back(ASM::NodeSet("a",{ 4,1,2 }));
    if (vc_pick("defined",0,1)) p->nodeSets.push_back(ASM::NodeSet("b",{ 3 }));
  }
  const char* name = which == 0 ? "a" : (which == 1 ? "b" : "c");
  IntVec want;
  for (Patch* p : m.patches)
    for (const ASM::NodeSet& s : p->nodeSets)
      if (s.first == name) for (int n : s.second) if (!has(want,p->MLGN[n-1])) want.push_back(p->MLGN[n-1]);
  IntVec nodes = m.getNodeSet(name);
  vc_eqi(nodes.size(),want.size(),"each node of the set once");
  for (size_t i = 0; i < nodes.size(); i++) {
    vc_true(has(want,nodes[i]),"nodes of the set");
    if (i) vc_true(nodes[i-1] < nodes[i],"in ascending order");
  }
}

// Nodal forces are the sum of the element forces in the node, with opposite sign
CONTRACT(H_nodal_forces)
{
  TModel tm;
  int mesh = vc_pick("dofs",0,3), nfc = vc_pick("components",1,3), lst = vc_pick("nodes",0,6), twice = vc_pick("again",0,1);
  switch (mesh) {
  case 0: tm.nd = { 2,2,2,2 }; break;
  case 1: tm.nd = { 1,1,1,1 }; break;
  case 2: tm.nd = { 3,1,2,3 }; break;
  default: tm.nd = { 2,0,3,2 };
  }
  size_t nd = 0;
  for (int n : tm.nd) nd += n;
  tm.kind.assign(nd,'1');
  tm.elems = { { 1,2 }, { 3,2 }, { 4,3,1 } };
  tm.derive();
  TSam sam(tm);
  IntVec nodes;
  switch (lst) {
  case 1: nodes = { 2 }; break;
  case 2: nodes = { 3,1 }; break;
  case 3: nodes = { 1,2,1,3 }; break;
  case 4: nodes = { 4,9,1 }; break;
  case 5: nodes = { 0,2,2,-1,4 }; break;
  case 6: nodes = { 4,3,2,1 }; break;
  }
  bool legal = true;
  IntVec unique;
  for (int n : nodes) if (n < 1 || n > 4) legal = false; else if (!has(unique,n)) unique.push_back(n);
  GlbForceVec F(sam);
  if (twice) { F.initNodeMap({ 1,4 },3); F.F.fill(7.5); }
  vc_eqi(F.initNodeMap(nodes,nfc),legal,"illegal nodes are reported");
  F.initialize();
  vc_eqi(F.size(),unique.size(),"number of nodes");
  std::vector<Vec3> want(4);
  for (int e = 0; e < 3; e++) {
    std::vector<int> dofs = tm.elmDofs(e);
    Contribution c;
    c.b.front().resize(dofs.size());
    vc_fill(c.b.front().ptr(),dofs.size(),"f");
    bool any = false;
    size_t k = 0;
    for (int n : tm.elems[e]) {
      bool in = has(unique,n);
      any |= in;
      for (int j = 0; j < tm.nd[n-1]; j++, k++)
        if (in && j < nfc) want[n-1][j] -= c.b.front()[k];
    }
    vc_eqi(F.assemble(&c,e+1),any,"elements without nodes on the boundary are reported");
  }
  {
    Contribution c;
    c.b.clear();
    vc_true(!F.assemble(&c,1),"elements without vectors are refused");
    ElmNorm n(2);
    vc_true(!F.assemble(&n,1),"other element quantities are refused");
  }
  vc_true(F.finalize(),"finalized");
  Vec3 tot, total = F.getTotalForce();
  for (int n = 0; n <= 5; n++) {
    Vec3 f = F.getForce(n);
    for (int d = 0; d < 3; d++)
      vc_eq(f[d],has(unique,n) ? want[n-1][d] : 0.0,"nodal force");
    if (has(unique,n)) tot += want[n-1];
  }
  for (int d = 0; d < 3; d++) vc_eq(total[d],tot[d],"total force");
  IntVec seen;
  for (size_t i = 0; i < F.size(); i++) {
    Vec3 f;
    int n = F.getForce(i,f);
    vc_true(has(unique,n) && !has(seen,n),"each node once by index");
    if (!has(unique,n)) continue;
    seen.push_back(n);
    for (int d = 0; d < 3; d++) vc_eq(f[d],want[n-1][d],"nodal force by index");
  }
  Vec3 f(1,2,3);
  vc_eqi(F.getForce(F.size(),f),0,"no more nodes");
  F.initialize();
  total = F.getTotalForce();
  for (int d = 0; d < 3; d++) vc_eq(total[d],0.0,"starts from zero again");
}

// Forces are integrated over each boundary (or patch) with the given code, once, with the solution and material of the patch
CONTRACT(H_boundary_force)
{
  int np = vc_pick("patches",1,3), code = vc_pick("code",0,2), terms = vc_pick("terms",0,3), dim = vc_pick("dimension",1,2), comps = vc_pick("components",1,2);
  int mats = vc_pick("materials",0,1), fail = vc_pick("failure",-1,1), nodal = vc_pick("nodal",0,1), bad = vc_pick("invalid patch",0,1), nu = vc_pick("solutions",0,2);
  if (!vc_thorough() && ((fail >= 0 && (np != 2 || nu != 1)) || (bad && (code != 1 || comps == 2)) || (nodal && (comps == 2 || nu == 0)) || (np == 3 && comps == 2) || (dim == 2 && (code == 2 || nu != 1)) || (bad && fail >= 0) || (mats && np == 1))) return;
  Model m(2,comps);
  m.setMode(SIM::RECOVERY);
  m.prob->comps = comps;
  m.prob->terms = terms;
  TModel tm;
  for (int i = 0; i < np; i++) {
    Patch* p = m.add({ i+1,i+2 },dim,{ { 0,1 } },i+1);
    tm.elems.push_back({ i+1,i+2 });
    for (int l = 0; l <= 3; l++) {
      p->force.push_back(Vector(comps));
      vc_fill(p->force.back().ptr(),comps,"force");
      if (nodal) {
        p->nodal.push_back(Vector(2));
        vc_fill(p->nodal.back().ptr(),2,"nodal force");
      }
    }
    if (mats) m.myProps.push_back(Property(Property::MATERIAL,40+i,i+1,dim));
  }
  tm.nd.assign(np+1,1);
  tm.kind.assign(np+1,'1');
  tm.derive();
  m.mySam = new TSam(tm);
  m.myProps.push_back(Property(Property::OTHER,1,np,dim-1,2));
  m.myProps.push_back(Property(Property::OTHER,-1,1,1-dim,1));
  m.myProps.push_back(Property(Property::OTHER,1,1,dim,3));
  m.myProps.push_back(Property(Property::OTHER,1,np,dim-1,3));
  m.myProps.push_back(Property(Property::OTHER,2,np,dim-1,1));
  if (bad) m.myProps.push_back(Property(Property::OTHER,1,np+1,dim-1,1));
  Vectors u(nu);
  for (Vector& v : u) { v.resize(np+1); vc_fill(v.ptr(),np+1,"u"); }
  // what to integrate
  std::vector<std::pair<int,int> > what;
  bool ok = true;
  if (code == 0)
    for (int p = 1; p <= np; p++) what.push_back({ p,0 });
  else for (const Property& p : m.myProps)
    if (p.pcode == Property::OTHER && abs(p.pindx) == code) {
      if ((int)p.patch > np) ok = false;
      else if (terms & 2) {
        bool done = false;
        for (auto& w : what) done |= w.first == (int)p.patch;
        if (!done) what.push_back({ p.patch,0 });
      }
      else if ((terms & 1) && abs(p.ldim)+1 == dim)
        what.push_back({ p.patch,p.lindx });
    }
  failAt = fail;
  if (fail >= 0 && fail < (int)what.size()) { ok = false; what.resize(fail+1); }
  TimeDomain time;
  if (!nodal) {
    Vector F = SIM::getBoundaryForce(u,&m,code,time);
    vc_eqi(F.size(),ok ? comps : 0,"number of force components");
    for (int c = 0; c < comps && ok; c++) {
      double f = 0.0;
      for (auto& w : what) f += m.patches[w.first-1]->force[w.second][c];
      vc_eq(F[c],f,"sum of the forces");
    }
  }
  else {
    GlbForceVec F(*m.mySam);
    IntVec all;
    for (int n = 1; n <= np+1; n++) all.push_back(n);
    F.initNodeMap(all,1);
    F.F.fill(3.5);
    vc_eqi(SIM::getNodalForces(u,&m,code,time,F),ok,"nodal forces evaluated");
    for (int n = 1; n <= np+1 && ok; n++) {
      double f = 0.0;
      for (auto& w : what)
        if (n == w.first || n == w.first+1) f -= m.patches[w.first-1]->nodal[w.second][n-w.first];
      vc_eq(F.getForce(n).x,f,"nodal force");
    }
  }
  vc_eqi(events.size(),what.size(),"each boundary or patch once");
  for (size_t i = 0; i < events.size() && i < what.size(); i++) {
    const Event& e = events[i];
    vc_eqi(e.patch,what[i].first,"patch");
    vc_eqi(e.lindex,what[i].second,"boundary");
    vc_true(e.kind == (what[i].second ? 'B' : 'I'),"interior or boundary terms");
    if (mats) vc_eqi(e.material,39+e.patch,"material of the patch");
    for (size_t k = 0; k < e.sol.size(); k++) {
      Vector w;
      if (k < u.size()) { w.resize(2); w[0] = u[k][e.patch-1]; w[1] = u[k][e.patch]; }
      same(e.sol[k],w,"solution of the patch");
    }
  }
}

CONTRACT(H_no_force_integrand)
{
  Model m(1);
  m.prob->noForce = true;
  TModel tm;
  tm.nd = { 1 };
  tm.kind = { '1' };
  tm.derive();
  m.mySam = new TSam(tm);
  TimeDomain time;
  vc_eqi(SIM::getBoundaryForce({},&m,0,time).size(),0,"no force");
  GlbForceVec F(*m.mySam);
  vc_true(!SIM::getNodalForces({},&m,0,time,F),"no nodal forces");
}

// The nodes with forces are those of the boundary
CONTRACT(H_force_nodes)
{
  int code = vc_pick("code",1,3), dim = vc_pick("dimension",1,3);
  Model m(1,dim);
  Patch* p = m.add({ 1,2 },1);
  p->bou = { { 1 }, { 2 } };
  p = m.add({ 2,3 },1);
  p->bou = { { 2 }, { 3 } };
  m.myProps.push_back(Property(Property::OTHER,1,2,0,2));
  m.myProps.push_back(Property(Property::OTHER,2,1,0,2));
  m.myProps.push_back(Property(Property::OTHER,2,2,0,1));
  TModel tm;
  tm.nd = { 3,3,3 };
  tm.kind.assign(9,'1');
  tm.elems = { { 1,2 }, { 2,3 } };
  tm.derive();
  m.mySam = new TSam(tm);
  GlbForceVec F(*m.mySam);
  vc_true(SIM::initBoundaryNodeMap(&m,code,F),"nodes found");
  vc_eqi(F.size(),code < 3 ? 1 : 0,"number of nodes");
  vc_eqi(F.F.rows(),dim,"one component for each direction");
  Vec3 f;
  if (code < 3) vc_eqi(F.getForce(0,f),code == 1 ? 3 : 2,"node of the boundary");
}

namespace {

//! Nodes with two dofs: free, fixed, prescribed and slave dofs
TModel reactionModel(int which)
{
  TModel m;
  m.nd = { 2,1,2 };
  switch (which) {
  case 0: m.kind = { 'F','1','1','1','F' }; break;
  case 1: m.kind = { 'C','1','1','C','1' }; break;
  case 2: m.kind = { 'C','F','1','C','1' }; break;
  default: m.kind = { '1','1','1','1','1' };
  }
  if (which == 1 || which == 2) {
    m.ceqDof = { 1,4 };
    m.c0 = { vc_real("c0"), vc_real("c0") };
    m.mst.resize(2);
    m.mst[1] = { { 5,vc_real("c") }, { 3,vc_real("c") } };
  }
  m.elems = { { 1,2 }, { 3,2 } };
  m.derive();
  return m;
}

//! What the reaction forces and internal forces should become
void checkReactions(const TModel& tm, const TSam& sam, const std::vector<Vector>& es, const std::vector<int>& used, const RealArray* R, const Vector* S)
{
  std::vector<double> f(tm.ndof,0.0), b(tm.neq,0.0);
  for (size_t e = 0; e < es.size(); e++) if (used[e]) {
    std::vector<int> d = tm.elmDofs(e);
    for (size_t i = 0; i < d.size(); i++) f[d[i]] += used[e]*es[e][i];
  }
  for (int d = 0; d < tm.ndof; d++)
    for (int q = 0; q < tm.neq; q++) b[q] += tm.T[d][q]*f[d];
  if (R) {
    vc_eqi(R->size(),sam.getNoSpecifiedDOFs(),"one reaction for each specified dof");
    for (int d = 0; d < tm.ndof && (int)R->size() == sam.getNoSpecifiedDOFs(); d++)
      if (tm.kind[d] == 'F' || tm.kind[d] == 'C')
        vc_eq((*R)[-sam.status(d+1)-1],-f[d],"reaction force");
  }
  if (S) {
    vc_eqi(S->size(),tm.ndof,"one internal force for each dof");
    for (int d = 0; d < tm.ndof && (int)S->size() == tm.ndof; d++) {
      double u = 0.0;
      for (int q = 0; q < tm.neq; q++) u += tm.T[d][q]*b[q];
      vc_eq((*S)[d],u,"internal force");
    }
  }
}

}

// The reaction forces oppose the sum of the element forces, when only these are integrated
CONTRACT(H_reactions_only)
{
  int which = vc_pick("dofs",0,3), out = vc_pick("quantities",1,3), rounds = vc_pick("rounds",1,2), skip = vc_pick("elements",1,3);
  TModel tm = reactionModel(which);
  TSam sam(tm);
  ProcessAdm adm;
  RealArray R(vc_pick("before",0,1)*7,1.5);
  Vector S;
  ReactionsOnly q(&sam,adm,out & 1 ? &R : nullptr,out & 2 ? &S : nullptr);
  std::vector<Vector> es(2);
  for (int r = 0; r < rounds; r++) {
    q.initialize(1);
    std::vector<int> used(2,0);
    for (int e = 0; e < 2; e++) {
      es[e].resize(tm.elmDofs(e).size());
      vc_fill(es[e].ptr(),es[e].size(),"es");
      if (!(skip & (1 << e))) continue;
      Contribution c;
      c.b.front() = es[e];
      used[e] = 1+e; // assembled twice
      for (int i = 0; i <= e; i++) vc_true(q.assemble(&c,e+1),"element forces assembled");
    }
    Contribution c;
    vc_true(!q.assemble(&c,3) || c.b.front().empty(),"no such element");
    vc_true(q.finalize(true),"finalized");
    checkReactions(tm,sam,es,used,out & 1 ? &R : nullptr,out & 2 ? &S : nullptr);
  }
}

// Only patches that can have reactions are asked for
CONTRACT(H_reaction_patches)
{
  int out = vc_pick("quantities",0,3), code = vc_pick("property",Property::UNDEFINED,Property::OTHER), extra = vc_pick("other property",0,2);
  TModel tm = reactionModel(0);
  TSam sam(tm);
  ProcessAdm adm;
  RealArray R;
  Vector S;
  ReactionsOnly q(&sam,adm,out & 1 ? &R : nullptr,out & 2 ? &S : nullptr);
  std::vector<Property> props;
  if (extra) props.push_back(Property(extra == 1 ? Property::NEUMANN : Property::DIRICHLET,1,1,0));
  props.push_back(Property((Property::Type)code,1,2,0));
  for (int p = 1; p <= 3; p++) {
    bool dir = (p == 1 && extra == 2) || (p == 2 && code >= Property::DIRICHLET && code <= Property::DIRICHLET_ANASOL);
    bool oth = p == 2 && code == Property::OTHER;
    vc_eqi(q.haveContributions(p,props),out & 2 ? oth : (out & 1 ? dir : false),"patches with reactions");
  }
}

// Reaction forces of a given solution, leaving the equation system alone
CONTRACT(H_assemble_forces)
{
  int which = vc_pick("dofs",0,2), out = vc_pick("quantities",1,3), fail = vc_pick("failure",-1,1);
  Model m(1,2);
  TModel tm = reactionModel(which);
  Patch* p = m.add({ 1,2 },1,{ { 0,1 } },1);
  Patch* q = m.add({ 3,2 },1,{ { 0,1 } },2);
  TSam* sam;
  m.mySam = sam = new TSam(tm);
  std::vector<Vector> es(2);
  std::vector<int> used(2,1);
  Patch* pq[2] = { p,q };
  for (int e = 0; e < 2; e++) {
    es[e].resize(tm.elmDofs(e).size());
    vc_fill(es[e].ptr(),es[e].size(),"es");
    pq[e]->nodal.push_back(es[e]);
    m.myProps.push_back(Property(Property::MATERIAL,40+e,e+1,1));
    int code = vc_pick("property",0,2);
    if (code > 0) m.myProps.push_back(Property(code == 1 ? Property::DIRICHLET : Property::OTHER,1,e+1,0,1));
    used[e] = code == (out & 2 ? 2 : 1);
  }
  m.setMode(SIM::STATIC);
  AlgEqSystem* sys = m.myEqSys = new AlgEqSystem(*m.mySam);
  RealArray R;
  Vector S, u(tm.ndof);
  vc_fill(u.ptr(),tm.ndof,"u");
  failAt = fail;
  int n = used[0]+used[1];
  bool ok = fail < 0 || fail >= n;
  vc_eqi(m.assembleForces(u,0.0,out & 1 ? &R : nullptr,out & 2 ? &S : nullptr),ok,"forces integrated");
  vc_true(m.myEqSys == sys,"the equation system is kept");
  vc_true(!m.prob->second,"the secondary integral is released");
  vc_eqi(events.size(),ok ? n : fail+1,"patches with reactions are integrated");
  if (!ok) return;
  for (const Event& e : events) {
    vc_eqi(e.material,39+e.patch,"material of the patch");
    vc_eqi(e.sol.front().size(),3,"solution of the patch");
    int off = e.patch == 1 ? 0 : 3;
    if (e.sol.front().size() == 3)
      for (int i = 0; i < 3; i++)
        vc_eq(e.sol.front()[i],u[e.patch == 1 ? i : (i < 2 ? off+i : 2)],"solution of the patch");
  }
  checkReactions(tm,*sam,es,used,out & 1 ? &R : nullptr,out & 2 ? &S : nullptr);
}

// The reactions reported for a boundary are those of its nodes
CONTRACT(H_current_reactions)
{
  int which = vc_pick("dofs",0,2), code = vc_pick("code",0,2), dim = vc_pick("dimension",1,3), nosol = vc_pick("solution",0,1), none = vc_pick("no reactions",0,2);
  TModel tm = reactionModel(which);
  Model m(1,dim);
  Patch* p = m.add({ 1,2 },1);
  p->bou = { { 1 }, { 2 } };
  p = m.add({ 3,2 },1);
  p->bou = { { 3 }, { 2 } };
  m.myProps.push_back(Property(Property::DIRICHLET,1,1,0,1));
  m.myProps.push_back(Property(Property::DIRICHLET,2,2,0,1));
  m.myProps.push_back(Property(Property::DIRICHLET,2,2,0,2));
  TSam* sam;
  m.mySam = sam = new TSam(tm);
  if (none < 2) m.myEqSys = new AlgEqSystem(*m.mySam);
  Vector R(sam->getNoSpecifiedDOFs()), u(nosol ? 0 : tm.ndof);
  vc_fill(R.ptr(),R.size(),"R");
  vc_fill(u.ptr(),u.size(),"u");
  if (none == 0) m.myEqSys->R = R;
  const RealArray* r = m.getReactionForces();
  vc_eqi(r != nullptr,none == 0,"reactions available");
  RealArray RF(5,3.0);
  IntVec nodes;
  if (code == 1) nodes = { 1 };
  if (code == 2) nodes = { 3,2 };
  bool any = false;
  std::vector<double> want;
  double work = 0.0;
  for (size_t c = 0; c < tm.ceqDof.size(); c++)
    if (tm.mst[c].empty() && !nosol) work += u[tm.ceqDof[c]-1]*R[-sam->status(tm.ceqDof[c])-1];
  if (!nosol) want.push_back(work);
  for (int d = 0; d < dim; d++) {
    double sum = 0.0;
    for (int n = 1; n <= 3; n++)
      if ((code == 0 || has(nodes,n)) && d < tm.nd[n-1]) {
        int dof = tm.first[n-1]+d;
        if (tm.eq[dof] == 0) { sum += R[-sam->status(dof+1)-1]; any = true; }
      }
    want.push_back(sum);
  }
  vc_eqi(m.haveReactions(code),any,"boundary with reactions");
  vc_eqi(m.getCurrentReactions(RF,u,code),none == 0,"reactions available");
  if (none) return;
  same(RF,want,"work and total reaction in each direction");
}

// The external energy is the path integral of the reactions over the prescribed displacements
CONTRACT(H_external_energy)
{
  int which = vc_pick("dofs",0,2), steps = vc_pick("steps",1,3);
  TModel tm = reactionModel(which);
  Model m(1,2);
  vc_eq(m.externalEnergy({ Vector(tm.ndof) },TimeDomain()),0.0,"no energy");
  TSam* sam;
  m.mySam = sam = new TSam(tm);
  m.myEqSys = new AlgEqSystem(*m.mySam);
  vc_eq(m.externalEnergy({ Vector(tm.ndof) },TimeDomain()),0.0,"no energy");
  std::vector<Vector> R(steps), u(steps+1);
  for (Vector& v : u) { v.resize(tm.ndof); vc_fill(v.ptr(),tm.ndof,"u"); }
  for (Vector& v : R) { v.resize(sam->getNoSpecifiedDOFs()); vc_fill(v.ptr(),v.size(),"R"); }
  double energy = 0.0, work = 0.0;
  for (int s = 0; s < steps; s++) {
    m.myEqSys->R = R[s];
    for (size_t c = 0; c < tm.ceqDof.size(); c++)
      if (tm.mst[c].empty()) {
        int d = tm.ceqDof[c]-1, r = -sam->status(d+1)-1;
        energy += 0.5*(u[s+1][d]-u[s][d])*(R[s][r] + (s > 0 ? R[s-1][r] : 0.0));
        if (s == 0) work += u[1][d]*R[0][r];
      }
    if (s == 0) vc_eq(m.externalEnergy({ u[1] },TimeDomain()),work,"work of the reactions with one solution");
    vc_eq(m.externalEnergy({ u[s+1],u[s] },TimeDomain()),energy,"path integral of the reactions");
  }
}

namespace {

//! A patch with extraordinary nodes and Lagrange multipliers last
Patch* multiPatch(Model& m, int which, unsigned char nf)
{
  Patch* p = new Patch(which == 1 ? IntVec{ 5,2,4,3,1 } : (which == 2 ? IntVec{ 3,1,5,2,4 } : IntVec{ 2,5,1 }),1,{ { 0,1 } },1,nf);
  p->idx = m.patches.size();
  m.patches.push_back(p);
  m.myModel.push_back(p);
  if (which > 0) p->nnod = 3;
  if (which == 1) { p->myLMs = { 4,5 }; p->myLMTypes = { 'G','G' }; p->nLag = 1; }
  return p;
}

}

// Patch vectors are cut from the global vectors and put back again
CONTRACT(H_nodal_vectors)
{
  int which = vc_pick("patch",0,2), dofs = vc_pick("dofs",0,2), nf = vc_pick("fields",1,3), ng = vc_pick("check",-2,1), basis = vc_pick("basis",0,2);
  Model m;
  Patch* p = multiPatch(m,which,nf);
  std::vector<int> nd(5,nf);
  if (dofs == 1) nd = { 2,0,3,1,2 };
  if (dofs == 2) nd = { 0,1,0,0,2 };
  std::vector<int> madof(1,1);
  for (int n : nd) madof.push_back(madof.back()+n);
  int ndof = madof.back()-1;
  RealArray glb(ndof), loc(2,1.0);
  vc_fill(glb.data(),ndof,"g");
  vc_eqi(p->extractNodalVec(glb,loc,madof.data(),ng > 0 ? 5 : ng),ng != 0,"global nodes known");
  if (ng == 0) return;
  size_t nn = ng == -2 && which > 0 ? 3 : p->MLGN.size();
  std::vector<double> want;
  for (size_t i = 0; i < nn; i++)
    for (int j = 0; j < nd[p->MLGN[i]-1]; j++) want.push_back(glb[madof[p->MLGN[i]-1]-1+j]);
  same(loc,want,"values of the patch");
  // and back again, for the nodes of one basis
  RealArray g2(ndof), old, in;
  vc_fill(g2.data(),ndof,"h");
  old = g2;
  std::vector<int> set;
  size_t k = 0;
  std::vector<double> now(old.begin(),old.end());
  for (size_t i = 0; i < p->MLGN.size(); i++) {
    bool D = which == 0 || i < 3;
    if (basis == 0 || (basis == 1 && D))
      for (int j = 0; j < nd[p->MLGN[i]-1]; j++) {
        in.push_back(vc_real("v"));
        now[madof[p->MLGN[i]-1]-1+j] = in.back();
      }
  }
  vc_true(p->injectNodalVec(in,g2,madof,basis),"values injected");
  same(g2,now,"values of the patch are set and the others are kept");
  vc_true(!p->injectNodalVec(in,g2,{},basis),"no nodes known");
}

// Nodal fields are cut from the global fields and put back again
CONTRACT(H_node_vectors)
{
  int which = vc_pick("patch",0,2), nf = vc_pick("fields",1,3), nnd = vc_pick("components",0,3), wrong = vc_pick("wrong size",0,1), few = vc_pick("fewer nodes",0,1);
  Model m;
  Patch* p = multiPatch(m,which,nf);
  int nc = nnd ? nnd : nf;
  size_t nn = which == 1 ? 3 : p->MLGN.size();
  RealArray glb(5*nc), loc(3,1.0);
  vc_fill(glb.data(),glb.size(),"g");
  p->extractNodeVec(glb,loc,nnd);
  std::vector<double> want;
  for (size_t i = 0; i < nn; i++) for (int j = 0; j < nc; j++) want.push_back(glb[(p->MLGN[i]-1)*nc+j]);
  same(loc,want,"values of the patch");
  RealArray in(nn*nc+wrong), g2((few ? 3 : 5)*nc);
  vc_fill(in.data(),in.size(),"v");
  vc_fill(g2.data(),g2.size(),"h");
  std::vector<double> now(g2.begin(),g2.end());
  if (!wrong) for (size_t i = 0; i < nn; i++) for (int j = 0; j < nc; j++)
    if (size_t k = (p->MLGN[i]-1)*nc+j; k < now.size()) now[k] = in[i*nc+j];
  vc_eqi(p->injectNodeVec(in,g2,nnd),!wrong,"size of the patch vector");
  same(g2,now,"values of the patch are set and the others are kept");
}

// Element results are those of the finite elements of the patch
CONTRACT(H_element_results)
{
  int first = vc_pick("first",0,3), nrow = vc_pick("rows",1,2), ncol = vc_pick("columns",2,6);
  Model m;
  Patch* p = m.add({ 1,2,3,4,5 },1,{ { 0,1 },{ 1 },{ 1,2 },{},{ 2,3 } });
  p->myMLGE = { 4,2,1,3,vc_pick("collapsed",0,1) ? 0 : 5 };
  Matrix R(nrow,ncol);
  Vector v(ncol), e;
  for (int i = 1; i <= nrow; i++) for (int j = 1; j <= ncol; j++) R(i,j) = vc_real("R");
  vc_fill(v.ptr(),ncol,"v");
  std::vector<int> elms = { 4,1 };
  if (p->MLGE[4]) elms.push_back(5);
  for (int r = 1; r <= nrow; r++) {
    vc_true(m.extractElmRes(R,e,r,0),"element results");
    vc_eqi(e.size(),elms.size(),"one value for each finite element");
    for (size_t k = 0; k < elms.size() && k < e.size(); k++) vc_eq(e[k],elms[k] <= ncol ? R(r,elms[k]) : 0.0,"element result");
  }
  vc_true(!m.extractElmRes(R,e,nrow+1,0) && !m.extractElmRes(R,e,1,1) && !m.extractElmRes(v,e,1),"nothing there");
  vc_true(m.extractElmRes(v,e,0),"element results");
  vc_eqi(e.size(),elms.size(),"one value for each finite element");
  for (size_t k = 0; k < elms.size() && k < e.size(); k++) vc_eq(e[k],elms[k] <= ncol ? v(elms[k]) : 0.0,"element result");
  p->extractElmRes(v,e,first);
  vc_eqi(e.size(),elms.size(),"one value for each finite element");
  for (int k = 0; k < (int)elms.size() && k < (int)e.size(); k++) {
    static const int internal[3] = { 0, 2, 4 };
    int i = first ? first+internal[k] : elms[k];
    vc_eq(e[k],i <= ncol ? v(i) : 0.0,"element result");
  }
}

// The members of an element set are found again when extracting the results of each patch
CONTRACT(H_element_set_fields)
{
  class SetPatch : public Patch
  {
  public:
    using Patch::Patch;
    std::vector<std::vector<int>> sets;
    bool getElementSet(int i, std::string& name) const override
    {
      if (i < 1 || i > (int)sets.size() || sets[i-1].empty()) return false;
      name = i == 1 ? "first" : "second";
      return true;
    }
    bool isInElementSet(int i, int e) const override
    {
      for (int k : sets[i-1]) if (k == e) return true;
      return false;
    }
  };
  Model m;
  std::vector<SetPatch*> p;
  for (int k = 0; k < 2; k++) {
    p.push_back(new SetPatch({ 1+4*k,2+4*k,3+4*k,4+4*k },1,{ { 0,1 },{ 1 },{ 1,2 },{ 2,3 } },1+4*k));
    TestPatch& t = *p.back();
    t.idx = k;
    if (vc_bool("collapsed")) t.myMLGE[0] = 0;
    m.patches.push_back(p.back());
    m.myModel.push_back(p.back());
    m.nGlPatches = 1+k;
  }
  int which = vc_pick("sets in",0,3), member = vc_pick("member",1,4);
  if (which & 1) p[0]->sets = { { 3 },{ member } };
  if (which & 2) p[1]->sets = { { member,3 } };
  for (int set = 1; set <= 3; set++) {
    std::string name = "none";
    RealArray a;
    bool there = (which & 1 && set < 3) || (which & 2 && set == 1);
    vc_eqi(m.getElementSet(set,name,a),there,"an element set exists if some patch has it");
    vc_true(name == (there ? (set == 1 ? "first" : "second") : "none"),"name of the element set");
    size_t first = 1;
    for (SetPatch* q : p) {
      Vector e;
      q->extractElmRes(Vector(a),e,first);
      first += q->getNoElms(true);
      size_t k = 0;
      for (size_t i = 0; i < 4; i++)
        if (q->MLGE[i] > 0 && q->MNPC[i].size() > 1) {
          bool in = set <= (int)q->sets.size() && q->isInElementSet(set,1+i);
          vc_eq(k < e.size() ? e[k] : -1.0,in ? 1.0 : 0.0,"member of the element set");
          k++;
        }
      vc_eqi(e.size(),k,"one value for each finite element");
    }
  }
}

// Patch solutions with other numbers of components than the primary solution, in a mixed problem
CONTRACT(H_patch_solution)
{
  class MxPatch : public Patch
  {
  public:
    unsigned char n2;
    MxPatch(const IntVec& n, unsigned char n1, unsigned char n2_) : Patch(n,1,{},1,n1), n2(n2_) { nnod = 2; }
    unsigned char getNoFields(int b) const override { return b > 2 ? 0 : (b == 2 ? n2 : (b == 1 ? nf : nf+n2)); }
    char getNodeType(size_t i) const override { return i <= 2 ? 'D' : 'P'; }
    unsigned char getNodalDOFs(size_t i) const override { return i <= 2 ? nf : n2; }
    void extractNodeVec(const RealArray& g, RealArray& v, unsigned char nc, int b) const override
    {
      v = { 1000.0+nc, (double)b };
    }
    bool injectNodeVec(const RealArray& v, RealArray& g, unsigned char nc, int b) const override
    {
      g = { 2000.0+nc, (double)b };
      return true;
    }
  };
  int n1 = vc_pick("fields",1,2), n2 = vc_pick("second fields",0,1), nc = vc_pick("components",1,3), basis = vc_pick("basis",0,2), other = vc_pick("other basis",0,1);
  Model m;
  IntMat ids = { { 1,2,4,5 }, { 2,3,5,6 } };
  TModel tm;
  tm.nd = { n1,n1,n1,n2,n2,n2 };
  tm.kind.assign(3*n1+3*n2,'1');
  tm.derive();
  TSam* sam;
  m.mySam = sam = new TSam(tm);
  std::vector<MxPatch*> ps;
  for (int i = 0; i < 2; i++) {
    ps.push_back(new MxPatch(ids[i],n1,n2));
    ps.back()->idx = i;
    m.myModel.push_back(ps.back());
  }
  bool separate = basis > 0 && n2 > 0 && nc != (basis == 1 ? n1 : n2);
  if (separate) {
    vc_true(m.addMADOF(basis,nc,other),"separate node table");
    vc_true(!m.addMADOF(basis,nc,!other),"established once");
  }
  const IntVec& madof = m.getMADOF(basis,nc);
  vc_eqi(madof.size(),separate ? 7 : 0,"separate node table");
  if (!separate) {
    RealArray sol(1,0.0), vec;
    vc_eqi(m.extractPatchSolution(sol,vec,ps[1],nc,basis),2,"components of the patch");
    vc_true(vec.size() == 2 && vec[0] == 1000+nc && vec[1] == basis,"nodal field of the patch");
    if (!(basis > 0 && n2 > 0)) return;
    vc_true(m.injectPatchSolution(sol,vec,ps[1],nc,basis),"injected");
    vc_true(sol.size() == 2 && sol[0] == 2000+nc && sol[1] == basis,"nodal field of the patch");
    return;
  }
  std::vector<int> nd(6,0), first(1,0);
  for (int n = 0; n < 6; n++) {
    bool mine = (n < 3) == (basis == 1);
    nd[n] = mine ? nc : (other ? (n < 3 ? n1 : n2) : 0);
    first.push_back(first.back()+nd[n]);
    vc_eqi(madof[n+1]-1,first.back(),"node table");
  }
  RealArray sol(first.back()), vec;
  vc_fill(sol.data(),sol.size(),"s");
  vc_eqi(m.extractPatchSolution({},vec,ps[0],nc,basis),0,"no solution");
  vc_eqi(m.extractPatchSolution(sol,vec,nullptr,nc,basis),0,"no patch");
  for (int i = 0; i < 2; i++) {
    std::vector<double> want, in;
    std::vector<double> now(sol.begin(),sol.end());
    for (int n : ids[i]) for (int j = 0; j < nd[n-1]; j++) want.push_back(sol[first[n-1]+j]);
    vc_eqi(m.extractPatchSolution(sol,vec,ps[i],nc,basis),want.size(),"components of the patch");
    same(vec,want,"solution of the patch");
    for (int n : ids[i]) if ((n < 4) == (basis == 1)) for (int j = 0; j < nd[n-1]; j++) { in.push_back(vc_real("v")); now[first[n-1]+j] = in.back(); }
    RealArray g(sol);
    vc_true(m.injectPatchSolution(g,in,ps[i],nc,basis),"injected");
    same(g,now,"the values of the basis are set and the others are kept");
  }
}
