// VC-TU: src/ASM/SAMpatch.C src/LinAlg/SAM.C src/ASM/ASMbase.C src/Utility/MPC.C src/Utility/Utilities.C src/Utility/LogStream.C src/Utility/Tensor.C
// VC-TIME: 300
// VC-PATHS: 30000
#include "vc.h"
#include "IFEM.h"
#include "LogStream.h"
#include "MPC.h"
#include "MPCLess.h"
#include "Tensor.h"
#include "SAMpatch.h"
#include "patch.inc"
#include <iostream>
#include <map>
#include <set>

utl::LogStream IFEM::cout(std::cout);

namespace {
  struct Con { int node, dof; double c0; std::vector< std::pair<std::pair<int,int>,double> > m; };

  //! What the specification knows about a patch (in its own numbering)
  struct Spec
  {
    std::vector<int> nodes, ndof;               // global node numbers and their number of dofs
    std::string type;                           // node types
    std::vector< std::pair<int, std::vector<int> > > elms; // element number and signed 1-based local nodes
    std::set< std::pair<int,int> > fixed;       // global node and local dof
    std::vector<Con> cons;
  };

  class TPatch : public TestPatch
  {
  public:
    std::vector<int> nd;
    std::string nt;
    explicit TPatch(const Spec& s, int nf) : TestPatch(nf,s.nodes), nd(s.ndof), nt(s.type)
    {
      myMLGE.clear(); myMNPC.clear();
      for (auto& e : s.elms) {
        myMLGE.push_back(e.first);
        IntVec mnpc;
        for (int n : e.second)
          mnpc.push_back(n > 0 ? n-1 : n < -1 ? n+1 : -2147483647-1); // local node 0 cannot carry a sign
        myMNPC.push_back(mnpc);
      }
      nel = myMLGE.size();
      for (const Con& c : s.cons) {
        MPC* mpc = new MPC(c.node,c.dof);
        this->addMPC(mpc);
        mpc->setSlaveCoeff(c.c0);
        for (auto& m : c.m) mpc->addMaster(m.first.first,m.first.second,m.second);
      }
      for (auto& f : s.fixed)
        for (size_t i = 0; i < s.nodes.size(); i++)
          if (s.nodes[i] == f.first) this->fix(i+1,f.second);
    }
    unsigned char getNodalDOFs(size_t i) const override { return nd[i-1]; }
    char getNodeType(size_t i) const override { return nt[i-1]; }
  };

  struct Model
  {
    int nnod;
    std::map<int,int> ndof;                     // dofs of each node
    std::map<int,char> type;
    std::map<int,std::string> dtype;
    std::map<int, std::vector<int> > elms;      // element number and signed global nodes
    std::set< std::pair<int,int> > fixed;
    std::vector<Con> cons;                      // in the order they are found

    explicit Model(int n = 0) : nnod(n) {}

    // Adds a patch, with its node and element numbers shifted and then mapped
    void add(const Spec& s, int nshift = 0, int eshift = 0, const std::map<int,int>& map = {})
    {
      auto glob = [&](int n) { auto it = map.find(n+nshift); return it == map.end() ? n+nshift : it->second; };
      for (size_t i = 0; i < s.nodes.size(); i++) {
        ndof[glob(s.nodes[i])] = s.ndof[i];
        type[glob(s.nodes[i])] = s.type[i];
      }
      for (auto& e : s.elms)
        if (e.first != 0) {
          std::vector<int> en;
          for (int l : e.second) { int g = glob(s.nodes[(l > 0 ? l : -l)-1]); en.push_back(l > 0 ? g : -g); }
          elms[(e.first > 0 ? e.first : -e.first)+eshift] = en;
        }
      for (auto& f : s.fixed) fixed.insert({glob(f.first),f.second});
      // the constraints of a patch are sorted on their slaves
      std::map< std::pair<int,int>, Con > sorted;
      for (Con c : s.cons) {
        c.node = glob(c.node);
        for (auto& m : c.m) m.first.first = glob(m.first.first);
        sorted[{c.node,c.dof}] = c;
      }
      for (auto& c : sorted) cons.push_back(c.second);
    }
  };

  void check(SAMpatch& s, const Model& m)
  {
    vc_eqi(s.getNoNodes(),m.nnod,"number of nodes");
    std::vector<int> first(m.nnod+1,0);
    for (int n = 1; n <= m.nnod; n++) first[n] = first[n-1] + (m.ndof.count(n) ? m.ndof.at(n) : 0);
    vc_eqi(s.getNoDOFs(),first[m.nnod],"number of degrees of freedom");
    for (int n = 1; n <= m.nnod; n++) {
      std::pair<int,int> d = s.getNodeDOFs(n);
      vc_eqi(d.first,first[n-1]+1,"first dof of each node");
      vc_eqi(d.second,first[n],"last dof of each node");
    }

    // constrained dofs: a dof already fixed or constrained keeps its first definition
    std::vector<char> kind(first[m.nnod]+1,'1');
    for (auto& f : m.fixed) if (f.second <= first[f.first]-first[f.first-1]) kind[first[f.first-1]+f.second] = 'F';
    std::vector<Con> act;
    for (const Con& c : m.cons) {
      char& k = kind[first[c.node-1]+c.dof];
      if (k == '1') { k = 'C'; act.push_back(c); }
    }
    if (act.size() < m.cons.size()) vc_cover("constraint ignored");
    vc_eqi(s.nceq,act.size(),"number of constraint equations");
    if (s.nceq == (int)act.size())
      for (size_t i = 0; i < act.size(); i++) {
        const Con& c = act[i];
        int ip = s.mpmceq[i]-1, jp = s.mpmceq[i+1]-1;
        vc_eqi(s.mmceq[ip],first[c.node-1]+c.dof,"slave of the constraint equation");
        vc_eq(s.ttcc[ip],c.c0,"constant part of the constraint equation");
        std::map<int,double> want;
        for (auto& mm : c.m) {
          int d = first[mm.first.first-1]+mm.first.second;
          if (kind[d] != 'F') want[d] += mm.second;
        }
        vc_eqi(jp-ip-1,want.size(),"number of masters");
        for (int k = ip+1; k < jp; k++) {
          vc_true(want.count(s.mmceq[k]),"master of the constraint equation");
          if (want.count(s.mmceq[k])) vc_eq(s.ttcc[k],want[s.mmceq[k]],"coefficient of the constraint equation");
        }
      }
    // equations
    int neq = 0, nspec = 0;
    for (int n = 1; n <= m.nnod; n++)
      for (int d = 1; d <= first[n]-first[n-1]; d++) {
        char k = kind[first[n-1]+d];
        int eq = s.getEquation(n,d);
        if (k == '1') vc_eqi(eq,++neq,"equation of a free dof");
        else {
          ++nspec;
          vc_true(eq <= 0,"no equation for a specified dof");
        }
      }
    vc_eqi(s.getNoEquations(),neq,"number of equations");
    vc_eqi(s.getNoSpecifiedDOFs(),nspec,"number of specified dofs");

    // elements
    int eMax = m.elms.empty() ? 0 : m.elms.rbegin()->first;
    vc_eqi(s.getNoElms(),eMax,"number of elements");
    for (int e = 1; e <= eMax; e++) {
      IntVec mnpc;
      vc_true(s.getElmNodes(mnpc,e),"element nodes available");
      auto it = m.elms.find(e);
      vc_eqi(mnpc.size(),it == m.elms.end() ? 0 : it->second.size(),"number of element nodes");
      if (it != m.elms.end() && mnpc.size() == it->second.size())
        for (size_t i = 0; i < mnpc.size(); i++) vc_eqi(mnpc[i],it->second[i],"element nodes");
    }

    // node and dof types
    bool typed = false;
    for (auto& t : m.type) typed |= t.second != 'D';
    int nD = 0, nP = 0;
    for (auto& t : m.type) { nD += t.second == 'D'; nP += t.second == 'P'; }
    if (typed || s.nodeType.empty()) vc_eqi(s.getNoNodes('P'),nP,"number of nodes by type");
    if (typed) {
      vc_eqi(s.getNoNodes('D'),nD,"number of nodes by type");
      for (auto& t : m.type) vc_eqi(s.getNodeType(t.first),t.second,"node types");
    }
    if (!m.dtype.empty()) {
      vc_eqi(s.dof_type.size(),first[m.nnod],"number of typed dofs");
      if ((int)s.dof_type.size() == first[m.nnod])
        for (auto& t : m.dtype)
          for (size_t d = 0; d < t.second.size(); d++)
            vc_eqi(s.dof_type[first[t.first-1]+d],t.second[d],"dof types");
    }
  }

  //! A patch of \a nn nodes and two or three elements
  Spec pickPatch(const char* name, int nn, int variant, int nf, int n0 = 1, int e0 = 1)
  {
    Spec s;
    for (int i = 0; i < nn; i++) {
      s.nodes.push_back(n0+i);
      s.ndof.push_back(nf);
      s.type.push_back('D');
    }
    if (variant == 0) // consecutive
      s.elms = {{e0,{1,2}},{e0+1,{2,3}}};
    else if (variant == 1) // out of order, with a sign on some nodes
      s.elms = {{e0+1,{1,-2,3}},{e0,{-1,3}}};
    else if (variant == 2) // a hole
      s.elms = {{e0,{3}},{e0+2,{2,1,3}}};
    else if (variant == 3) // element without volume
      s.elms = {{e0,{1,2}},{0,{2,2}},{e0+1,{3,1,2}}};
    else // extraordinary element (marked with a negative number)
      s.elms = {{e0,{1,2}},{-(e0+1),{2,3}}};
    return s;
  }
}

//! Two or three patches with common nodes
CONTRACT(H_init)
{
  MPCLess::compareSlaveDofOnly = true;
  int nf = vc_pick("dofs",1,2), what = vc_pick("conditions",0,4), share = vc_pick("shared",0,2);
  int elm = nf == 2 && what == 0 ? vc_pick("elements",0,4) : (what+share)%5;
  Spec a = pickPatch("a",3,elm,nf), b = pickPatch("b",3,what%3,nf,4-share,elm == 2 ? 4 : 3);
  if (what == 1) { a.fixed = {{1,1}}; b.fixed = {{b.nodes[1],nf}}; }
  if (what == 2) {
    double c = vc_real("c"); vc_assume(c > 1.0);
    a.cons.push_back({1,1,vc_real("c0"),{}});
    b.cons.push_back({b.nodes[2],nf,vc_real("c0"),{{{b.nodes[1],1},c},{{b.nodes[0],1},1.5}}});
    b.fixed = {{b.nodes[1],1}};
  }
  if (what == 3) { // second definition of a shared node is ignored, fixed ones are not constrained
    double c = vc_real("c"); vc_assume(c > 1.0);
    a.fixed = {{3,1}};
    a.cons.push_back({2,1,0.0,{{{1,1},c}}});
    b.cons.push_back({b.nodes[0],1,vc_real("c0"),{}});
    b.cons.push_back({b.nodes[2],nf,vc_real("c0"),{}});
  }
  bool mixed = what == 4;
  if (mixed) { // mixed method: the last nodes are of another kind
    b.type = share > 1 ? "DDP" : share > 0 ? "DPP" : "PPP";
    for (int i = share > 1 ? 2 : share > 0 ? 1 : 0; i < 3; i++) b.ndof[i] = 3-nf;
  }
  std::vector<ASMbase*> model = { new TPatch(a,nf), new TPatch(b,3) };
  int nnod = b.nodes.back();
  if (vc_pick("empty",0,1)) { // an empty patch, and a node that belongs to no other patch
    model.push_back(new TestPatch(nf,{}));
    ++nnod;
  }
  Model m(nnod);
  m.add(a);
  m.add(b);
  std::vector<char> dt;
  if (nf == 2 && vc_pick("dof-types",0,1)) {
    dt = { 'D','P' };
    for (auto& t : m.type) if (t.second == 'D') m.dtype[t.first] = "DP"; else m.dtype[t.first] = std::string(m.ndof[t.first],' ');
  }
  SAMpatch sam;
  bool ok = sam.init(model,nnod,dt);
  vc_true(ok,"consistent patches are accepted");
  if (ok) check(sam,m);
  vc_eqi(sam.getNoPatches(),model.size(),"number of patches");
  for (ASMbase* p : model) delete p;
}

//! Inconsistent patches are refused
CONTRACT(H_refused)
{
  MPCLess::compareSlaveDofOnly = true;
  int what = vc_pick("error",0,1);
  Spec a = pickPatch("a",3,0,2), b = pickPatch("b",3,0,2,3,3);
  if (what == 0) b.ndof[0] = 1; // conflicting number of dofs in a shared node
  else b.elms[1].first = 2;     // element number in use
  std::vector<ASMbase*> model = { new TPatch(a,2), new TPatch(b,2) };
  SAMpatch sam;
  vc_true(!sam.init(model,5,{}),"refused");
  for (ASMbase* p : model) delete p;
}

//! The number of nodes is the sum over the patches if it is not given
CONTRACT(H_count_nodes)
{
  MPCLess::compareSlaveDofOnly = true;
  Spec a = pickPatch("a",3,0,2), b = pickPatch("b",3,0,2,4,3);
  std::vector<ASMbase*> model = { new TPatch(a,2), new TPatch(b,2) };
  SAMpatch sam;
  vc_true(sam.init(model,0,{}),"accepted");
  Model m(6);
  m.add(a);
  m.add(b);
  check(sam,m);
  for (ASMbase* p : model) delete p;
}

//! Merging the tables of two models
CONTRACT(H_merge)
{
  MPCLess::compareSlaveDofOnly = true;
  int nf = vc_pick("dofs",1,2), what = vc_pick("conditions",0,4), all = nf == 1 && what == 0;
  int e1 = all ? vc_pick("elements",0,4) : what, e2 = all ? vc_pick("elements",0,4) : (2*what)%5;
  Spec a = pickPatch("a",3,e1,nf), b = pickPatch("b",3,e2,nf);
  std::map<int,int> o2n;
  int cpl = vc_pick("coupled",0,2);
  if (cpl > 0) o2n[4] = 3;
  if (cpl > 1) o2n[5] = 1;
  double c = vc_real("c"); vc_assume(c > 1.0);
  if (what == 1) { a.fixed = {{2,nf}}; b.fixed = {{3,1},{1,nf}}; }
  if (what == 2) {
    a.cons.push_back({2,1,vc_real("c0"),{}});
    b.cons.push_back({3,nf,vc_real("c0"),{{{1,1},c}}});
  }
  if (what == 3) { // the coupled node is fixed in one model and constrained in the other
    a.fixed = {{3,1}};
    a.cons.push_back({1,1,vc_real("c0"),{}});
    b.cons.push_back({1,1,vc_real("c0"),{}});
    b.cons.push_back({2,1,vc_real("c0"),{}});
  }
  if (what == 4) { // a constraint is ignored in one of the models already
    a.fixed = {{3,1}};
    a.cons.push_back({3,1,vc_real("c0"),{}});
    b.fixed = {{2,1}};
    b.cons.push_back({2,1,vc_real("c0"),{}});
    b.cons.push_back({3,nf,vc_real("c0"),{{{1,1},c}}});
  }
  int neA = 0, n = 0;
  for (auto& e : a.elms) { int i = e.first > 0 ? e.first : -e.first; if (i > neA) neA = i; n += i; }
  std::vector<ASMbase*> mA = { new TPatch(a,nf) }, mB = { new TPatch(b,nf) };
  SAMpatch sA, sB;
  std::vector<char> dA, dB;
  int dt = nf == 2 ? vc_pick("dof-types",0,3) : 0;
  if (dt & 1) dA = { 'D','P' };
  if (dt & 2) dB = { 'D','Q' };
  bool ok = sA.init(mA,3,dA) && sB.init(mB,3,dB);
  vc_true(ok,"accepted");
  if (!ok) return;
  ok = sA.merge(&sB,&o2n);
  vc_true(ok,"merged");
  Model m(6);
  m.add(a);
  m.add(b,3,neA,o2n);
  if (dt > 0)
    for (auto& t : m.ndof) m.dtype[t.first] = t.first <= 3 ? (dt & 1 ? "DP" : "DD") : (dt & 2 ? "DQ" : "DD");
  if (ok) check(sA,m);
  vc_eqi(sA.getNoPatches(),2,"number of patches");
  if (ok && what > 1) { // the constraint equations can be updated afterwards
    vc_true(sA.updateConstraintEqs(),"constraints updated");
    for (int i = 0; i < sA.nceq; i++) vc_eq(sA.ttcc[sA.mpmceq[i]-1],0.0,"constant part without a solution");
  }
  SAM other;
  vc_true(!sA.merge(&other,nullptr),"another kind of table is refused");
  delete mA[0];
  delete mB[0];
}
