// VC-TU: src/Utility/MPC.C src/Utility/Utilities.C
// VC-TIME: 200
// VC-PATHS: 30000
#include "vc.h"
#include "MPC.h"
#include "MPCLess.h"
#include <map>
#include <vector>

namespace {
  struct Term { int node, dof; double c; };
  typedef std::vector<Term> Terms;

  //! Some terms; each master may occur several times
  Terms pickTerms(int maxTerms, int nNod, int nDof)
  {
    Terms t(vc_pick("terms",0,maxTerms));
    for (Term& m : t) {
      int k = vc_pick("master",0,nNod*nDof-1);
      m.node = 5+3*(k%nNod);
      m.dof = 1+k/nNod;
      m.c = vc_real("c");
    }
    return t;
  }

  //! Sum of the coefficients of one master, each counted if it is not negligible
  double coef(const Terms& t, int node, int dof, double tol = 1.0e-8)
  {
    double c = 0.0;
    for (const Term& m : t)
      if (m.node == node && m.dof == dof)
        if (m.c < -tol || m.c > tol) c += m.c;
    return c;
  }

  double coef(const MPC& mpc, int node, int dof)
  {
    double c = 0.0;
    for (size_t i = 0; i < mpc.getNoMaster(); i++)
      if (mpc.getMaster(i).node == node && mpc.getMaster(i).dof == dof) c += mpc.getMaster(i).coeff;
    return c;
  }

  //! No master occurs twice
  bool unique(const MPC& mpc)
  {
    for (size_t i = 0; i < mpc.getNoMaster(); i++)
      for (size_t j = 0; j < i; j++)
        if (mpc.getMaster(i).node == mpc.getMaster(j).node && mpc.getMaster(i).dof == mpc.getMaster(j).dof) return false;
    return true;
  }

  bool isNode(const MPC& mpc, int nNod)
  {
    for (size_t i = 0; i < mpc.getNoMaster(); i++) {
      int n = (mpc.getMaster(i).node-5)/3;
      if (mpc.getMaster(i).node != 5+3*n || n < 0 || n >= nNod) return false;
    }
    return true;
  }
}

//! Coefficients of the same master are added
CONTRACT(H_masters)
{
  MPC mpc(2,1,vc_real("c0"));
  double c0 = mpc.getSlave().coeff;
  Terms t = pickTerms(3,2,2);
  for (const Term& m : t) mpc.addMaster(m.node,m.dof,m.c);
  vc_true(unique(mpc),"each master is found once");
  vc_true(isNode(mpc,2),"no other masters");
  for (int n = 0; n < 2; n++)
    for (int d = 1; d <= 2; d++)
      vc_eq(coef(mpc,5+3*n,d),coef(t,5+3*n,d),"coefficients of a master are added");
  vc_eq(mpc.getSlave().coeff,c0,"constant part is unchanged");
  vc_true(mpc.getSlave().node == 2 && mpc.getSlave().dof == 1,"slave is unchanged");
  vc_true(!mpc.isChained(),"not chained");
  size_t n = mpc.getNoMaster();
  double off = vc_real("offset");
  mpc.addOffset(off);
  vc_eq(mpc.getSlave().coeff,c0+off,"offset is added");
  mpc.setSlaveCoeff(off);
  vc_eq(mpc.getSlave().coeff,off,"constant is set");
  if (n > 0) {
    std::vector<Term> before;
    for (size_t i = 0; i < n; i++) before.push_back({ mpc.getMaster(i).node, mpc.getMaster(i).dof, mpc.getMaster(i).coeff });
    int pos = vc_pick("position",0,n);
    double c = vc_real("new");
    mpc.updateMaster(pos,c);
    for (size_t i = 0; i < n; i++)
      vc_eq(mpc.getMaster(i).coeff,(int)i == pos ? c : before[i].c,"only the given coefficient is updated");
    mpc.removeMaster(pos);
    vc_eqi(mpc.getNoMaster(),pos < (int)n ? n-1 : n,"one master is removed");
    for (size_t i = 0; i < mpc.getNoMaster(); i++) {
      const Term& m = before[(int)i < pos ? i : i+1 < n ? i+1 : i];
      vc_true(mpc.getMaster(i).node == m.node && mpc.getMaster(i).dof == m.dof,"the other masters remain");
      vc_eq(mpc.getMaster(i).coeff,m.c,"with their coefficients");
    }
  }
}

//! Merging two constraints of the same slave adds the coefficients
CONTRACT(H_merge)
{
  int same = vc_pick("slaves",0,3), n1 = vc_pick("masters1",0,2), n2 = vc_pick("masters2",0,2);
  double c0 = vc_real("c0"), c1 = same == 3 ? vc_real("c1") : c0;
  MPC a(2,1,c0), b(same == 1 ? 3 : 2,same == 2 ? 3 : 1,c1);
  Terms ta, tb;
  for (int i = 0; i < n1; i++) ta.push_back({ 5+3*i, 1, vc_real("a") });
  int shift = vc_pick("common",0,1);
  for (int i = 0; i < n2; i++) tb.push_back({ 5+3*((i+shift)%2), 1, vc_real("b") });
  for (const Term& t : ta) a.addMaster(t.node,t.dof,t.c);
  for (const Term& t : tb) b.addMaster(t.node,t.dof,t.c);
  MPC a0(a), b0(b);
  bool merged = a.merge(&b);
  bool identic = a0.getNoMaster() == b0.getNoMaster();
  for (size_t i = 0; i < a0.getNoMaster() && identic; i++) {
    double d = a0.getMaster(i).coeff - b0.getMaster(i).coeff;
    identic = a0.getMaster(i).node == b0.getMaster(i).node && d < 1.0e-8 && d > -1.0e-8;
  }
  if (same == 1 || same == 2 || (same == 3 && c0 != c1) || identic)
    vc_true(!merged,"different slaves or the same constraint");
  else
    vc_true(merged,"merged");
  vc_true(unique(a),"each master is found once");
  for (int n = 0; n < 2; n++) {
    double x = coef(a0,5+3*n,1), y = coef(b0,5+3*n,1);
    vc_eq(coef(a,5+3*n,1),merged ? x+y : x,"sum of the coefficients if merged, else unchanged");
    vc_eq(coef(b,5+3*n,1),y,"the other one is unchanged");
  }
  vc_eq(a.getSlave().coeff,c0,"constant part is unchanged");
  if (merged) vc_cover("merged");
}

//! Renumbering and shifting keep the relation between the renamed nodes
CONTRACT(H_renumber)
{
  int n1 = vc_pick("masters",0,3), shift = vc_pick("shift",-2,5), order = vc_pick("order",0,1);
  MPC a(2,1,vc_real("c0"));
  std::vector<double> c;
  for (int i = 0; i < n1; i++) {
    c.push_back(vc_real("c"));
    vc_assume(c[i] > 1.0);
    a.addMaster(order ? 9-i : 5+i,1+i%2,c[i]);
  }
  double c0 = a.getSlave().coeff;
  std::map<int,int> old2new;
  int missing = 0, mask = vc_pick("mapped",0,(1 << (n1+1))-1);
  if (mask & 1) old2new[2] = 11; else ++missing;
  for (int i = 0; i < n1; i++) {
    int n = order ? 9-i : 5+i;
    if (mask & (2 << i)) old2new[n] = 20-2*i; else ++missing;
  }
  vc_eqi(a.renumberNodes(old2new),missing,"number of nodes not found");
  vc_eqi(a.getSlave().node,mask & 1 ? 11 : 2,"slave node is renumbered");
  vc_eqi(a.getSlave().dof,1,"slave direction");
  vc_eq(a.getSlave().coeff,c0,"constant part");
  vc_eqi(a.getNoMaster(),n1,"number of masters");
  for (int i = 0; i < n1; i++) {
    int n = order ? 9-i : 5+i;
    vc_eqi(a.getMaster(i).node,mask & (2 << i) ? 20-2*i : n,"master node is renumbered");
    vc_eqi(a.getMaster(i).dof,1+i%2,"master direction");
    vc_eq(a.getMaster(i).coeff,c[i],"coefficient");
  }
  MPC b(a);
  b.shiftNodes(shift);
  vc_eqi(b.getSlave().node,a.getSlave().node+shift,"slave node is shifted");
  for (int i = 0; i < n1; i++) {
    vc_eqi(b.getMaster(i).node,a.getMaster(i).node+shift,"master node is shifted");
    vc_eqi(b.getMaster(i).dof,a.getMaster(i).dof,"master direction");
    vc_eq(b.getMaster(i).coeff,a.getMaster(i).coeff,"coefficient");
  }
}

//! Comparison of single degrees of freedom is a strict weak ordering
CONTRACT(H_order_dofs)
{
  bool slaveOnly = MPCLess::compareSlaveDofOnly = vc_pick("slave-only",0,1);
  MPC* d[3];
  for (MPC*& m : d) {
    int node = vc_int("node",1,1000000), dof = vc_int("dof",1,9);
    m = new MPC(node,dof,vc_real("c"));
  }
  MPCLess less;
  bool ab = less(d[0],d[1]), ba = less(d[1],d[0]), bc = less(d[1],d[2]), cb = less(d[2],d[1]), ac = less(d[0],d[2]), ca = less(d[2],d[0]);
  vc_true(!less(d[0],d[0]),"irreflexive");
  vc_true(!(ab && ba),"asymmetric");
  if (ab && bc) vc_true(ac,"transitive");
  if (!ab && !ba && !bc && !cb) vc_true(!ac && !ca,"equivalence is transitive");
  const MPC::DOF &p = d[0]->getSlave(), &q = d[1]->getSlave();
  if (!ab && !ba) {
    vc_true(p.node == q.node && p.dof == q.dof,"only the same degree of freedom is equivalent");
    vc_true(p == q,"consistent with equality");
    if (!slaveOnly) vc_eq(p.coeff,q.coeff,"and the same coefficient");
  }
  else if (slaveOnly)
    vc_true(p.node != q.node || p.dof != q.dof,"the same degree of freedom is equivalent");
  for (MPC* m : d) delete m;
  MPCLess::compareSlaveDofOnly = false;
}

//! Comparison of constraints is a strict weak ordering
CONTRACT(H_order)
{
  bool slaveOnly = MPCLess::compareSlaveDofOnly = vc_pick("slave-only",0,1);
  MPC* m[3];
  int dofs = vc_pick("slaves",0,7), n[3];
  for (int i = 0; i < 3; i++) {
    m[i] = new MPC(4,(dofs & (1 << i)) ? 1 : 2,i < 2 ? 1.0 : 1.0);
    n[i] = vc_pick("masters",0,2);
    int nodes = n[i] > 0 ? vc_pick("node",0,n[i] > 1 ? 1 : 0) : 0;
    for (int j = 0; j < n[i]; j++) {
      double c = vc_real("c");
      vc_assume(c > 1.0);
      m[i]->addMaster(7+(j^nodes),1,c);
    }
  }
  MPCLess less;
  bool ab = less(m[0],m[1]), ba = less(m[1],m[0]), bc = less(m[1],m[2]), cb = less(m[2],m[1]), ac = less(m[0],m[2]), ca = less(m[2],m[0]);
  vc_true(!less(m[0],m[0]),"irreflexive");
  vc_true(!(ab && ba),"asymmetric");
  if (ab && bc) vc_true(ac,"transitive");
  if (!ab && !ba && !bc && !cb) vc_true(!ac && !ca,"equivalence is transitive");
  if (!ab && !ba) {
    vc_eqi(m[0]->getSlave().dof,m[1]->getSlave().dof,"constraints for different slaves are never equivalent");
    if (!slaveOnly) {
      vc_eqi(n[0],n[1],"the same number of masters");
      for (int j = 0; j < n[0] && j < n[1]; j++) vc_eq(m[0]->getMaster(j).coeff,m[1]->getMaster(j).coeff,"the same coefficients");
    }
  }
  else if (slaveOnly)
    vc_true(m[0]->getSlave().dof != m[1]->getSlave().dof,"constraints for the same slave are equivalent");
  vc_true(less(nullptr,m[0]) && !less(m[0],nullptr),"no constraint comes first");
  for (MPC* p : m) delete p;
  MPCLess::compareSlaveDofOnly = false;
}
