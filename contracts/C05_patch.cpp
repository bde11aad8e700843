// VC-TU: src/ASM/ASMbase.C src/Utility/MPC.C src/Utility/Utilities.C src/Utility/LogStream.C src/Utility/Tensor.C
// VC-TIME: 300
// VC-PATHS: 30000
#include "vc.h"
#include "IFEM.h"
#include "LogStream.h"
#include "MPC.h"
#include "MPCLess.h"
#include "Tensor.h"
#include "patch.inc"
#include <iostream>
#include <map>

utl::LogStream IFEM::cout(std::cout);

namespace {
  double coef(const MPC& mpc, int node, int dof)
  {
    double c = 0.0;
    for (size_t i = 0; i < mpc.getNoMaster(); i++)
      if (mpc.getMaster(i).node == node && mpc.getMaster(i).dof == dof) c += mpc.getMaster(i).coeff;
    return c;
  }

  //! What the specification knows about a constraint
  struct Entry { int code; std::map<std::pair<int,int>,double> m; double c0; };
  typedef std::map<std::pair<int,int>,Entry> Table;

  void compare(const TestPatch& pch, const Table& T, int nNod, int nf)
  {
    vc_eqi(pch.getNoMPCs(),T.size(),"number of constraints");
    for (int n = 1; n <= nNod; n++)
      for (int d = 1; d <= nf; d++) {
        MPC* mpc = pch.findMPC(n,d);
        auto it = T.find({n,d});
        vc_true((mpc != nullptr) == (it != T.end()),"constraints are found by their slave");
        if (!mpc || it == T.end()) continue;
        vc_true(mpc->getSlave().node == n && mpc->getSlave().dof == d,"slave");
        vc_eq(mpc->getSlave().coeff,it->second.c0,"constant part");
        vc_eqi(mpc->getNoMaster(),it->second.m.size(),"number of masters");
        for (auto& m : it->second.m) vc_eq(coef(*mpc,m.first.first,m.first.second),m.second,"coefficient");
      }
  }
}

//! Fixing, prescribing and coupling degrees of freedom in any sequence
CONTRACT(H_sequence)
{
  MPCLess::compareSlaveDofOnly = true;
  TestPatch pch(2,{1,2,3});
  Table T;
  std::map<std::pair<int,int>,bool> fixed;
  int nops = vc_pick("operations",1,3);
  for (int o = 0; o < nops; o++) {
    int what = vc_pick("operation",0,o == 0 ? 2 : 4), slave = o == 0 ? 1 : vc_pick("node",1,2), dir = o == 0 ? 1 : vc_pick("direction",1,o == 1 ? 2 : 1);
    std::pair<int,int> key(slave,dir);
    if (what == 0) {
      vc_eqi(pch.fix(slave,dir),0,"fixed");
      fixed[key] = true;
      vc_true(pch.isFixed(slave,dir),"is fixed");
    }
    else if (what == 1 || what == 4) {
      // Prescribe, possibly overriding an earlier condition
      bool over = what == 4, ign = false;
      if (fixed[key] && !over)
        ign = false; // silently ignored
      else if (T.count(key) && !(over && T[key].m.empty()))
        ign = true; // already a slave
      else {
        T[key] = { 7+o, {}, 1.0 };
        fixed[key] = false;
      }
      // An overridden fixation is always removed
      if (over) fixed[key] = false;
      vc_eqi(pch.prescribe(slave,dir,7+o,over),ign ? dir : 0,"prescribed unless already constrained");
    }
    else if (what == 2) {
      int master = slave == 3 ? 1 : 3;
      bool ok = fixed[key] || !T.count(key);
      if (!fixed[key] && !T.count(key))
        T[key] = { 0, {{{master,dir},1.0}}, 0.0 };
      else if (!fixed[key]) {
        // The master is also added to the constraint that exists already
        T[key].m[{master,dir}] += 1.0;
      }
      vc_eqi(pch.add2PC(slave,dir,master),ok,"coupled unless already constrained");
    }
    else {
      int m1 = 3, m2 = slave == 1 ? 2 : 1;
      bool ok = fixed[key] || !T.count(key);
      if (!fixed[key] && !T.count(key))
        T[key] = { 0, {{{m1,dir},1.0},{{m2,dir},1.0}}, 0.0 };
      else if (!fixed[key]) {
        T[key].m[{m1,dir}] += 1.0;
        T[key].m[{m2,dir}] += 1.0;
      }
      vc_eqi(pch.add3PC(slave,dir,m1,m2),ok,"coupled unless already constrained");
    }
    compare(pch,T,3,2);
    for (int n = 1; n <= 3; n++)
      for (int d = 1; d <= 2; d++)
        vc_eqi(pch.isFixed(n,d),fixed[{n,d}],"fixed degrees of freedom");
    int codes = 0;
    for (auto& t : T) codes += t.second.code > 0;
    vc_eqi(pch.dCode.size(),codes,"prescribed values have a code");
    for (auto& c : pch.dCode) vc_eqi(c.second,T[{c.first->getSlave().node,c.first->getSlave().dof}].code,"code of the prescribed value");
  }
}

//! Renumbering the nodes of a patch: constraints are still found by their slave
CONTRACT(H_renumber_patch)
{
  MPCLess::compareSlaveDofOnly = true;
  TestPatch pch(2,{1,2,3,4});
  Table T;
  int mask = vc_pick("slaves",1,15);
  for (int n = 1; n <= 3; n++)
    if (mask & (1 << (n-1))) {
      MPC* mpc = new MPC(n,1);
      pch.addMPC(mpc);
      double c = vc_real("c");
      vc_assume(c > 1.0);
      mpc->addMaster(4,1,c);
      T[{n,1}] = { 0, {{{4,1},c}}, 0.0 };
    }
  if (mask & 8) { vc_eqi(pch.prescribe(2,2,5),0,"prescribed"); T[{2,2}] = { 5, {}, 1.0 }; }
  pch.fix(4,2);
  int perm = vc_pick("permutation",0,23), gn = vc_pick("nodes",0,1);
  std::vector<int> left = { 1, 2, 3, 4 };
  std::map<int,int> o2n;
  for (int n = 4; n > 0; n--) {
    o2n[n] = left[perm%n];
    left.erase(left.begin()+perm%n);
    perm /= n;
  }
  vc_true(pch.renumberNodes(o2n,{},gn),"renumbered");
  Table R;
  for (auto& t : T) {
    Entry e = t.second;
    e.m.clear();
    for (auto& m : t.second.m) e.m[{o2n[m.first.first],m.first.second}] = m.second;
    R[{o2n[t.first.first],t.first.second}] = e;
  }
  compare(pch,R,4,2);
  for (int n = 1; n <= 4; n++) {
    vc_eqi(pch.isFixed(o2n[n],2),n == 4,"fixed degrees of freedom follow their node");
    vc_eqi(pch.getNodeID(n),gn ? o2n[n] : n,"node number");
  }
  int shift = vc_pick("shift",0,1)*10;
  pch.shiftGlobalNodeNums(shift);
  for (int n = 1; n <= 4; n++)
    vc_true((pch.findMPC(o2n[n]+shift,1) != nullptr) == (n < 4 && (mask & (1 << (n-1)))),"constraints are found after shifting");
  // A second constraint for the same slave is refused
  if (mask & 1) {
    MPC* again = new MPC(o2n[1]+shift,1);
    vc_true(!pch.addMPC(again),"no second constraint for a slave");
    vc_true(again == pch.findMPC(o2n[1]+shift,1),"the existing one is given instead");
  }
}

//! Constraints of the same slave in several patches become one
CONTRACT(H_patches)
{
  MPCLess::compareSlaveDofOnly = true;
  int np = vc_pick("patches",1,3);
  std::vector<ASMbase*> model;
  std::vector<TestPatch*> pch;
  // Node 3 is shared by all patches
  struct { bool any; double c0; double c[3]; bool has[3]; int nm; } expect = { false, 0.0, {0,0,0}, {false,false,false}, 0 };
  int codes = 0;
  for (int p = 0; p < np; p++) {
    pch.push_back(new TestPatch(1,{1,2,3,4}));
    model.push_back(pch.back());
    // A constraint of its own
    MPC* own = new MPC(10+p,1);
    pch[p]->addMPC(own);
    own->addMaster(4,1,1.5);
    int kind = vc_pick("constraint",0,4);
    if (kind == 0) continue;
    MPC* mpc = new MPC(3,1,kind == 1 ? 1.0 : 0.0);
    pch[p]->addMPC(mpc,kind == 1 ? 9 : 0);
    codes += kind == 1 && !expect.any;
    double c[3] = { 0, 0, 0 };
    bool has[3] = { kind > 1, kind == 3 || kind == 4, kind == 4 };
    int nm = 0;
    for (int i = 0; i < 3; i++)
      if (has[i]) {
        c[i] = vc_real("c");
        vc_assume(c[i] > 1.0);
        mpc->addMaster(i == 2 ? 4 : 1+i,1,c[i]);
        ++nm;
      }
    if (!expect.any) {
      expect.any = true;
      expect.c0 = kind == 1 ? 1.0 : 0.0;
      expect.nm = nm;
      for (int i = 0; i < 3; i++) { expect.c[i] = c[i]; expect.has[i] = has[i]; }
    }
    else if (expect.nm > 1 && kind > 1) {
      bool identic = nm == expect.nm;
      for (int i = 0; i < 3 && identic; i++) {
        double d = c[i] - expect.c[i];
        identic = has[i] == expect.has[i] && d < 1.0e-8 && d > -1.0e-8;
      }
      if (!identic)
        for (int i = 0; i < 3; i++) {
          expect.c[i] += c[i];
          if (has[i] && !expect.has[i]) { expect.has[i] = true; ++expect.nm; }
        }
    }
  }
  MPCSet all;
  ASMbase::mergeAndGetAllMPCs(model,all);
  vc_eqi(all.size(),np+expect.any,"one constraint for each slave");
  size_t total = 0, ncode = 0;
  for (TestPatch* p : pch) {
    total += p->getNoMPCs();
    ncode += p->dCode.size();
    for (ASMbase::BCVec::const_iterator b = p->begin_BC(); b != p->end_BC(); ++b) vc_true(false,"nothing is fixed");
    for (MPCIter it = p->begin_MPC(); it != p->end_MPC(); ++it) vc_true(all.count(*it) && *all.find(*it) == *it,"the patches have the common constraints");
  }
  vc_eqi(total,np+expect.any,"each constraint belongs to one patch");
  vc_eqi(ncode,codes,"codes of the remaining prescribed values");
  int found = 0;
  for (MPC* m : all) {
    if (m->getSlave().node != 3) {
      vc_true(m->getNoMaster() == 1 && coef(*m,4,1) == 1.5,"other constraints are unchanged");
      continue;
    }
    ++found;
    vc_eq(m->getSlave().coeff,expect.c0,"constant part");
    for (int i = 0; i < 3; i++) vc_eq(coef(*m,i == 2 ? 4 : 1+i,1),expect.c[i],"merged coefficients");
    vc_eqi(m->getNoMaster(),expect.nm,"merged masters");
  }
  vc_eqi(found,expect.any,"constraint of the shared node");
  if (np > 1 && expect.nm > 2) vc_cover("merged");
  for (TestPatch* p : pch) delete p;
}

//! Coupling to a node with its own axes: u_slave = Tlg * u_master for the directions that are free
CONTRACT(H_local_axes)
{
  MPCLess::compareSlaveDofOnly = true;
  TestPatch pch(3,{1,2});
  pch.nsd = vc_pick("dimension",2,3);
  Tensor R(pch.nsd);
  double t[3][3];
  for (int i = 0; i < pch.nsd; i++)
    for (int j = 0; j < pch.nsd; j++) {
      t[i][j] = vc_real("T");
      vc_assume(t[i][j] > 0.1);
      R(i+1,j+1) = t[i][j];
    }
  int mf = vc_pick("fixed-master",0,7), sf = vc_pick("fixed-slave",0,1);
  for (int d = 0; d < 3; d++) if (mf & (1 << d)) pch.fix(2,d+1);
  if (sf) pch.fix(1,1);
  pch.addLocal2GlobalCpl(0,2,R);
  for (int d = 0; d < 3; d++) {
    MPC* mpc = pch.findMPC(1,d+1);
    int nm = 0;
    if (d >= pch.nsd) nm = (mf & (1 << d)) ? 0 : 1;
    else for (int c = 0; c < pch.nsd; c++) nm += (mf & (1 << c)) ? 0 : 1;
    if (nm == 0 || (sf && d == 0)) {
      vc_true(!mpc,"no constraint without free masters");
      vc_true(pch.isFixed(1,d+1),"but fixed");
      continue;
    }
    vc_true(mpc != nullptr,"constraint is defined");
    vc_true(!pch.isFixed(1,d+1),"not fixed");
    if (!mpc) continue;
    vc_eqi(mpc->getNoMaster(),nm,"one master for each free direction");
    for (int c = 0; c < 3; c++) {
      bool part = !(mf & (1 << c)) && (d < pch.nsd ? c < pch.nsd : c == d);
      vc_eq(coef(*mpc,2,c+1),!part ? 0.0 : d < pch.nsd ? t[d][c] : 1.0,"coefficient");
    }
  }
}

//! Rigid couplings follow u_slave = u_master + theta x dX
CONTRACT(H_rigid)
{
  MPCLess::compareSlaveDofOnly = true;
  int nf = vc_pick("dofs",3,2*3);
  TestPatch pch(nf,{1,2});
  Vec3 X(vc_real("x"),vc_real("y"),vc_real("z"));
  vc_assume(X.x > 0.1); vc_assume(X.y > 0.1); vc_assume(X.z > 0.1);
  pch.addRigidMPC(1,2,X);
  double e[3][3] = {{ 0, X.z, -X.y }, { -X.z, 0, X.x }, { X.y, -X.x, 0 }}; // theta x dX
  for (int d = 0; d < nf; d++) {
    MPC* mpc = pch.findMPC(1,d+1);
    vc_true(mpc != nullptr,"constraint is defined");
    if (!mpc) continue;
    for (int c = 0; c < 6; c++) {
      double v = c == d ? 1.0 : 0.0;
      if (d < 3 && c > 2) v = e[d][c-3];
      vc_eq(coef(*mpc,2,c+1),v,"coefficient");
    }
    vc_eq(mpc->getSlave().coeff,0.0,"no constant part");
  }
}
