// VC-TU: src/ASM/ASMbase.C src/ASM/SAMpatch.C src/LinAlg/SAM.C src/Utility/MPC.C src/Utility/Utilities.C src/Utility/LogStream.C src/LinAlg/SystemMatrix.C src/LinAlg/MatVec.C
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 300
// VC-PATHS: 30000
#include "vc.h"
#include "IFEM.h"
#include "LogStream.h"
#include "SAMpatch.h"
#include "SystemMatrix.h"
#include "MPC.h"
#include "MPCLess.h"
#include "patch.inc"
#include <iostream>

utl::LogStream IFEM::cout(std::cout);

namespace {
  enum { FREE, FIXED, PRESCRIBED, SLAVE };

  //! Degrees of freedom with constraints that refer to later ones in some permutation
  struct Chain
  {
    int n, nf;
    std::vector<int> kind;                             // of each dof
    std::vector<double> c0;
    std::vector< std::vector<double> > c;              // coefficients
    std::vector< std::vector<char> > has;              // is a master
    std::vector<int> number;                           // 0-based global dof of each chain position
    std::vector< std::vector<double> > T;              // total coefficients of the free ones
    std::vector<double> g;                             // total constant

    int node(int i) const { return 1+number[i]/nf; }
    int dof(int i) const { return 1+number[i]%nf; }

    void total()
    {
      T.assign(n,std::vector<double>(n,0.0));
      g.assign(n,0.0);
      for (int i = n-1; i >= 0; i--)
        if (kind[i] == FREE) T[i][i] = 1.0;
        else if (kind[i] > FIXED) {
          g[i] = c0[i];
          for (int j = i+1; j < n; j++)
            if (has[i][j]) {
              g[i] += c[i][j]*g[j];
              for (int k = j; k < n; k++) T[i][k] += c[i][j]*T[j][k];
            }
        }
    }
  };

  Chain pickChain(int n, int nf, bool fixed)
  {
    Chain m;
    m.n = n;
    m.nf = nf;
    m.kind.assign(n,FREE);
    m.c0.assign(n,0.0);
    m.c.assign(n,std::vector<double>(n,0.0));
    m.has.assign(n,std::vector<char>(n,0));
    int perm = nf > 1 && !vc_thorough() ? 2 : vc_pick("numbering",0,2);
    for (int i = 0; i < n; i++)
      m.number.push_back(perm == 0 ? i : perm == 1 ? n-1-i : i%2 ? i/2 : n-1-i/2);
    for (int i = n-1; i >= 0; i--) {
      int k = vc_pick("kind",fixed ? 0 : 1,i+1 < n ? 1+(1 << (n-i-1)) : 2);
      m.kind[i] = k == 0 ? FIXED : k == 1 ? FREE : k == 2 ? PRESCRIBED : SLAVE;
      if (k < 2) continue;
      m.c0[i] = k == 2 ? vc_real("g") : 0.0;
      if (k == 2) vc_assume(m.c0[i] > 0.0);
      for (int j = i+1; j < n; j++)
        if ((k-2) & (1 << (j-i-1))) {
          double v = vc_real("c");
          vc_assume(v >= 1.0 && v <= 2.0);
          m.c[i][j] = (i+j)%2 ? -v : v; // the signs are such that no terms cancel
          m.has[i][j] = 1;
        }
    }
    m.total();
    return m;
  }

  void addTo(TestPatch& pch, const Chain& m)
  {
    for (int i = 0; i < m.n; i++)
      if (m.kind[i] == FIXED)
        pch.fix(m.node(i),m.dof(i));
      else if (m.kind[i] > FIXED) {
        MPC* mpc = new MPC(m.node(i),m.dof(i),m.c0[i]);
        vc_true(pch.addMPC(mpc,m.kind[i] == PRESCRIBED ? 100+i : 0) && mpc,"constraint added");
        if (mpc)
          for (int j = m.n-1; j > i; j--)
            if (m.has[i][j]) mpc->addMaster(m.node(j),m.dof(j),m.c[i][j]);
      }
  }

  TestPatch* newPatch(const Chain& m)
  {
    IntVec nodes;
    for (int i = 1; i <= m.n/m.nf; i++) nodes.push_back(i);
    IntMat elms;
    for (int i = 1; i < m.n/m.nf; i++) elms.push_back({ i-1, i });
    return new TestPatch(m.nf,nodes,elms);
  }
}

//! Chained constraints are resolved to constraints with free (or fixed) masters only
CONTRACT(H_resolve)
{
  MPCLess::compareSlaveDofOnly = true;
  Chain m = pickChain(4,1,false);
  TestPatch* pch = newPatch(m);
  addTo(*pch,m);
  MPCSet all;
  ASMbase::mergeAndGetAllMPCs({pch},all);
  ASMbase::resolveMPCchains(all,{pch});
  for (int i = 0; i < m.n; i++) {
    MPC* mpc = pch->findMPC(m.node(i),m.dof(i));
    vc_true(m.kind[i] > FIXED ? mpc != nullptr : !mpc,"constraints are found by their slave");
    if (!mpc) continue;
    vc_eq(mpc->getSlave().coeff,m.g[i],"constant part of the chain");
    std::vector<double> t(m.n,0.0);
    for (size_t k = 0; k < mpc->getNoMaster(); k++) {
      vc_true(!pch->findMPC(mpc->getMaster(k).node,mpc->getMaster(k).dof),"no master is a slave");
      for (int j = 0; j < m.n; j++)
        if (m.node(j) == mpc->getMaster(k).node && m.dof(j) == mpc->getMaster(k).dof) t[j] += mpc->getMaster(k).coeff;
    }
    for (int j = 0; j < m.n; j++) vc_eq(t[j],m.T[i][j],"products of the coefficients along the chain");
  }
  delete pch;
}

//! The model expands a solution such that all chained constraints are fulfilled, also when they are updated
CONTRACT(H_model)
{
  MPCLess::compareSlaveDofOnly = true;
  int nf = vc_pick("dofs-per-node",1,2), link = vc_pick("linked",0,1);
  Chain m = pickChain(nf == 2 || vc_thorough() ? 4 : 3,nf,nf == 1);
  TestPatch* pch = newPatch(m);
  addTo(*pch,m);
  {
    MPCSet all;
    ASMbase::mergeAndGetAllMPCs({pch},all);
    ASMbase::resolveMPCchains(all,{pch},link);
  }
  SAMpatch sam;
  vc_true(sam.init({pch},m.n/m.nf,{}),"model is defined");
  std::vector<int> free(m.n,-1);
  int neq = 0;
  for (int d = 0; d < m.n; d++)
    for (int i = 0; i < m.n; i++)
      if (m.number[i] == d && m.kind[i] == FREE) free[i] = neq++;
  vc_eqi(sam.getNoEquations(),neq,"one equation for each free degree of freedom");
  if (sam.getNoEquations() != neq) return;
  StdVector x(neq);
  Vector u;
  vc_fill(x.ptr(),neq,"x");
  vc_true(sam.expandSolution(x,u),"expanded");
  for (int i = 0; i < m.n; i++) {
    double v = m.g[i];
    for (int j = 0; j < m.n; j++) if (free[j] >= 0) v += m.T[i][j]*x[free[j]];
    vc_eq(u[m.number[i]],v,"constraint is fulfilled");
  }
  if (link) {
    // New prescribed values, and increments from any solution
    for (int i = 0; i < m.n; i++)
      if (m.kind[i] == PRESCRIBED) {
        MPC* mpc = pch->findMPC(m.node(i),m.dof(i));
        m.c0[i] = vc_pick("zero",0,1) ? 0.0 : vc_real("new");
        if (mpc) mpc->setSlaveCoeff(m.c0[i]);
      }
    m.total();
    Vector prev(m.n);
    vc_fill(prev.ptr(),m.n,"u");
    for (int i = 0; i < m.n; i++) if (m.kind[i] == FIXED) prev[m.number[i]] = 0.0;
    vc_true(sam.updateConstraintEqs(&prev),"updated");
    vc_true(sam.expandSolution(x,u),"expanded");
    for (int i = 0; i < m.n; i++) {
      double v = m.g[i];
      for (int j = 0; j < m.n; j++) if (free[j] >= 0) v += m.T[i][j]*(prev[m.number[j]]+x[free[j]]);
      vc_eq(prev[m.number[i]]+u[m.number[i]],v,"constraint is fulfilled by the updated solution");
    }
    // Further increments do not change the prescribed part
    vc_true(sam.updateConstraintEqs(),"updated");
    vc_true(sam.expandSolution(x,u),"expanded");
    for (int i = 0; i < m.n; i++) {
      double v = 0.0;
      for (int j = 0; j < m.n; j++) if (free[j] >= 0) v += m.T[i][j]*x[free[j]];
      vc_eq(u[m.number[i]],v,"homogeneous constraint");
    }
  }
  delete pch;
}
