// VC-TU: src/LinAlg/SAM.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/DiagMatrix.C src/LinAlg/MatVec.C src/Utility/LogStream.C
// VC-INCLUDE: sam.inc
// VC-TIME: 250
// VC-FLAGS: -UHAS_ISTL
// VC-ASSUME: the optional ISTL matrix classes are left out of the compilation of SystemMatrix.C (only its factory refers to them)
#include "vc.h"
#include "sam.inc"
#include "SystemMatrix.h"
#include "DenseMatrix.h"
#include "IFEM.h"
#include <iostream>

utl::LogStream IFEM::cout(std::cout);

static void reactions(int mesh)
{
  TModel m = pickModel(mesh,false,mesh%2);
  int nn = m.nd.size();
  m.elems.push_back({});
  for (int i = nn; i >= 1; i--) m.elems[0].push_back(i);
  m.elems.push_back({-1,nn});
  m.elems.push_back({2,2});
  TSam s(m);
  if (!s.ok) return;
  int how = vc_pick("how",0,2), nsp = s.getNoSpecifiedDOFs();
  RealArray rf(nsp);
  vc_fill(rf.data(),nsp,"rf0");
  std::vector<double> want(m.ndof,0.0);
  for (int d = 0; d < m.ndof; d++)
    if (m.kind[d] == 'F' || m.kind[d] == 'C') want[d] = rf[-s.status(d+1)-1];
  StdVector b(m.neq);
  b.init();
  for (int e = 1; e <= 2; e++) {
    int ie = e == 2 ? vc_pick("elem",2,3) : 1;
    std::vector<int> ed = m.elmDofs(ie-1);
    int n = ed.size();
    if (how == 0) {
      RealArray f(n);
      vc_fill(f.data(),n,"f");
      vc_true(s.assembleSystem(b,f,ie,&rf),"element vector accepted");
      for (int i = 0; i < n; i++)
        if (ed[i] >= 0) want[ed[i]] += f[i];
    }
    else {
      Matrix k(n,n);
      vc_fill(k.ptr(),n*n,"k");
      if (how == 1)
        vc_true(s.assembleSystem(b,k,ie,&rf),"element matrix accepted");
      else {
        DenseMatrix A(m.neq,m.neq);
        vc_true(s.assembleSystem(A,b,k,ie,&rf),"element matrix accepted");
      }
      for (int i = 0; i < n; i++)
        if (ed[i] >= 0)
          for (int j = 0; j < n; j++)
            if (ed[j] >= 0 && m.kind[ed[j]] == 'C') want[ed[i]] -= k(i+1,j+1)*m.g[ed[j]];
    }
  }
  if (nsp > 1 && m.ceqDof.size() > 1) vc_cover("several specified dofs");
  for (int d = 0; d < m.ndof; d++)
    if (m.kind[d] == 'F' || m.kind[d] == 'C')
      vc_eq(rf[-s.status(d+1)-1],want[d],"reaction force accumulated at its own dof");
}

CONTRACT(H_reactions_2x2) { reactions(0); }
CONTRACT(H_reactions_121) { reactions(1); }
CONTRACT(H_reactions_31)  { reactions(2); }
CONTRACT(T_reactions_1111){ reactions(3); }

CONTRACT(H_nodal_load_reactions)
{
  TModel m = pickModel(2,false,1);
  TSam s(m);
  if (!s.ok) return;
  int nsp = s.getNoSpecifiedDOFs(), n = vc_pick("node",1,2);
  RealArray rf(nsp), old;
  vc_fill(rf.data(),nsp,"rf0");
  old = rf;
  StdVector b(m.neq);
  double f[3];
  vc_fill(f,3,"f");
  vc_true(s.assembleSystem(b,f,n,&rf),"nodal load accepted");
  for (int d = 0; d < m.ndof; d++)
    if (m.kind[d] == 'F' || m.kind[d] == 'C') {
      int r = -s.status(d+1)-1;
      bool in = d >= m.first[n-1] && d < m.first[n];
      vc_eq(rf[r],old[r]+(in ? f[in ? d-m.first[n-1] : 0] : 0.0),"nodal load accumulated at the specified dofs of the node");
    }
}

static void lookup(int mesh)
{
  TModel m = pickModel(mesh,false,1);
  TSam s(m);
  if (!s.ok) return;
  int nn = m.nd.size(), nsp = s.getNoSpecifiedDOFs(), w = vc_pick("nodes",0,4);
  RealArray rf(nsp);
  vc_fill(rf.data(),nsp,"rf");
  RealArray val(m.ndof,0.0);
  for (int d = 0; d < m.ndof; d++)
    if (m.kind[d] == 'F' || m.kind[d] == 'C') val[d] = rf[-s.status(d+1)-1];
  // nodal reactions
  if (w == 0) {
    for (int n = 1; n <= nn; n++) {
      RealArray nrf(vc_pick("before",0,1)*5);
      vc_fill(nrf.data(),nrf.size(),"old");
      bool any = false;
      for (int j = 0; j < m.nd[n-1]; j++) any |= m.eq[m.first[n-1]+j] == 0;
      vc_eqi(s.getNodalReactions(n,rf,nrf),any,"nodes without specified dofs have no reactions");
      vc_eqi(nrf.size(),m.nd[n-1],"one reaction component for each dof of the node");
      for (int j = 0; j < m.nd[n-1] && (int)nrf.size() == m.nd[n-1]; j++)
        vc_eq(nrf[j],val[m.first[n-1]+j],"reaction of a nodal dof");
    }
    RealArray dummy;
    vc_true(!s.getNodalReactions(0,rf,dummy) && !s.getNodalReactions(nn+1,rf,dummy),"other nodes have no reactions");
  }
  // total reactions by direction
  IntVec nodes;
  if (w == 2) nodes = { 1 };
  if (w == 3) nodes = { nn, 2 };
  if (w == 4) nodes = { nn+1 };
  for (int dir = 0; dir <= 4; dir++) {
    double sum = 0.0;
    bool any = false;
    for (int n = 1; n <= nn; n++) {
      bool in = w <= 1;
      for (int i : nodes) in |= i == n;
      if (in && dir > 0 && dir <= m.nd[n-1]) {
        int d = m.first[n-1]+dir-1;
        sum += val[d];
        any |= m.eq[d] == 0;
      }
    }
    vc_eqi(s.haveReaction(dir,w > 0 ? &nodes : nullptr),w == 1 ? false : any,"directions with reactions");
    vc_eq(s.getReaction(dir,rf,w > 0 ? &nodes : nullptr),w == 1 ? 0.0 : sum,"total reaction in a direction");
    // a second request for the same nodes does not add the reactions twice
    if (w > 1) vc_eq(s.getReaction(dir,rf,&nodes),0.0,"reactions of a node set are collected once");
  }
}

CONTRACT(H_lookup_2x2) { lookup(0); }
CONTRACT(H_lookup_121) { lookup(1); }
CONTRACT(H_lookup_31)  { lookup(2); }

//! Work of the reaction forces of prescribed dofs
CONTRACT(H_norm_react)
{
  TModel m = pickModel(vc_pick("mesh",0,1),true);
  TSam s(m);
  if (!s.ok) return;
  int nsp = s.getNoSpecifiedDOFs();
  RealArray rf(nsp), u(m.ndof);
  vc_fill(rf.data(),nsp,"rf");
  vc_fill(u.data(),m.ndof,"u");
  double want = 0.0;
  for (size_t c = 0; c < m.ceqDof.size(); c++)
    if (m.mst[c].empty()) want += u[m.ceqDof[c]-1]*rf[-s.status(m.ceqDof[c])-1];
  vc_eq(s.normReact(u,rf),want,"sum of displacement times reaction over the prescribed dofs");
}
