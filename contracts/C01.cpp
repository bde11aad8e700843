// VC-TU: src/LinAlg/SAM.C
// VC-INCLUDE: sam.inc
// VC-TIME: 200
#include "vc.h"
#include "sam.inc"

static void numbering(int mesh)
{
  TModel m = pickModel(mesh,true,mesh%2);
  m.elems.push_back({});
  for (size_t i = 0; i < m.nd.size(); i++) m.elems[0].push_back(m.nd.size()-i);
  TSam s(m);
  vc_true(s.ok,"consistent tables are accepted");
  if (!s.ok) return;
  int nfree = 0, nspec = 0;
  std::vector<int> seen(m.ndof+1,0), react(m.ndof+1,0);
  int last1 = 0, last2 = 0, n1 = 0;
  for (int d = 1; d <= m.ndof; d++) n1 += m.kind[d-1] == '1';
  for (int d = 1; d <= m.ndof; d++) {
    int eq = s.equation(d), sc = s.status(d);
    char k = m.kind[d-1];
    if (k == '1' || k == '2') {
      nfree++;
      vc_true(eq >= 1 && eq <= m.neq && !seen[eq > 0 && eq <= m.neq ? eq : 0],"each free dof has its own equation");
      if (eq >= 1 && eq <= m.neq) seen[eq] = 1;
      vc_true(k == '1' ? eq <= n1 : eq > n1,"first-class equations come before second-class ones");
      int& last = k == '1' ? last1 : last2;
      vc_true(eq > last,"ascending order within a class");
      last = eq;
      vc_eqi(sc,k-'0',"the status of a free dof is kept");
    }
    else {
      nspec++;
      vc_true(sc < 0 && sc >= -m.ndof,"fixed and constrained dofs get a reaction number");
      if (sc < 0 && sc >= -m.ndof) {
        vc_true(!react[-sc],"reaction numbers are distinct");
        react[-sc] = 1;
      }
      if (k == 'F') vc_eqi(eq,0,"a fixed dof has no equation");
      else {
        int c = -eq-1;
        vc_true(c >= 0 && c < (int)m.ceqDof.size() && m.ceqDof[c] == d,"a constrained dof refers to its own constraint equation");
      }
    }
  }
  vc_eqi(s.getNoEquations(),nfree,"number of equations");
  vc_eqi(s.getNoSpecifiedDOFs(),nspec,"number of specified dofs");
  for (int d = 1; d <= nspec; d++) vc_true(react[d],"reaction numbers are consecutive");
  if (m.neq > 1 && nspec > 1) vc_cover("free and specified dofs together");
  // look-up by node and by element
  IntVec meen, mnen, want;
  for (size_t n = 1; n <= m.nd.size(); n++) {
    vc_true(s.getNodeEqns(mnen,n),"node equations available");
    vc_eqi(mnen.size(),m.nd[n-1],"number of node equations");
    std::pair<int,int> nf = s.getNodeDOFs(n);
    vc_eqi(nf.first,m.first[n-1]+1,"first dof of a node");
    vc_eqi(nf.second,m.first[n],"last dof of a node");
    for (int j = 1; j <= m.nd[n-1]; j++) {
      int d = m.first[n-1]+j;
      if ((int)mnen.size() == m.nd[n-1]) vc_eqi(mnen[j-1],s.equation(d),"node equations in dof order");
      vc_eqi(s.getEquation(n,j),m.eq[d-1],"equation of a nodal dof");
    }
    vc_true(s.getEquation(n,m.nd[n-1]+1) < 0 && s.getEquation(n,0) < 0,"no equation beyond the dofs of the node");
  }
  vc_true(s.getEquation(0,1) < 0 && s.getEquation(m.nd.size()+1,1) < 0,"no equation for other nodes");
  vc_true(!s.getNodeEqns(mnen,0) && !s.getNodeEqns(mnen,m.nd.size()+1),"other nodes are refused");
  std::vector<int> ed = m.elmDofs(0);
  vc_true(s.getElmEqns(meen,1),"element equations available");
  vc_eqi(meen.size(),ed.size(),"number of element equations");
  if (meen.size() == ed.size())
    for (size_t i = 0; i < ed.size(); i++) vc_eqi(meen[i],s.equation(ed[i]+1),"element equations follow the node order");
  vc_true(s.getElmEqns(meen,1,ed.size()),"matching element dimension accepted");
  vc_true(!s.getElmEqns(meen,1,ed.size()+1),"mismatching element dimension refused");
  vc_true(!s.getElmEqns(meen,0) && !s.getElmEqns(meen,2),"other elements are refused");
  // inverse look-up
  for (int d = 1; d <= m.ndof; d++) {
    int n = 1;
    while (m.first[n] < d) n++;
    std::pair<int,int> nl = s.getNodeAndLocalDof(d);
    vc_eqi(nl.first,n,"node of a dof");
    vc_eqi(nl.second,d-m.first[n-1],"local number of a dof");
    if (m.eq[d-1] > 0) {
      nl = s.getNodeAndLocalDof(m.eq[d-1],true);
      vc_eqi(nl.first,n,"node of an equation");
      vc_eqi(nl.second,d-m.first[n-1],"local number of the dof of an equation");
    }
  }
  std::pair<int,int> none = s.getNodeAndLocalDof(m.neq+1,true);
  vc_true(none.first == 0 && none.second == 0,"no node for other equations");
}

CONTRACT(H_numbering_2x2) { numbering(0); }
CONTRACT(H_numbering_121) { numbering(1); }
CONTRACT(H_numbering_31)  { numbering(2); }
CONTRACT(H_numbering_1111){ numbering(3); }
CONTRACT(T_numbering_212) { numbering(4); }

//! Which equations an element couples, by the relation u = T x + g
static void couplings(int mesh)
{
  TModel m = pickModel(mesh,false);
  int nn = m.nd.size();
  m.elems.push_back({1,2});
  m.elems.push_back({nn,-1,nn-1});
  m.elems.push_back({});
  TSam s(m);
  if (!s.ok) return;
  std::vector< std::vector<int> > want(m.neq,std::vector<int>(m.neq,0));
  for (int e = 0; e < 3; e++) {
    std::vector<int> ed = m.elmDofs(e), eqs(m.neq,0);
    for (int d : ed)
      if (d >= 0 && m.kind[d] != 'C') { if (m.eq[d] > 0) eqs[m.eq[d]-1] = 1; }
      else if (d >= 0)
        for (size_t c = 0; c < m.ceqDof.size(); c++)
          if (m.ceqDof[c] == d+1)
            for (auto& t : m.mst[c]) if (t.first > 0) eqs[m.eq[t.first-1]-1] = 1;
    IntSet u;
    s.getUniqueEqns(u,e+1);
    int cnt = 0;
    for (int i = 0; i < m.neq; i++) {
      vc_eqi(u.count(i+1),eqs[i],"unique equations of an element, slaves replaced by their masters");
      cnt += eqs[i];
      for (int j = 0; j < m.neq; j++) if (eqs[i] && eqs[j]) want[i][j] = 1;
    }
    vc_eqi(u.size(),cnt,"number of unique equations of an element");
  }
  std::vector<IntSet> dofc;
  s.getDofCouplings(dofc);
  IntVec irow, jcol;
  s.getDofCouplings(irow,jcol);
  vc_eqi(dofc.size(),m.neq,"one coupling set for each equation");
  vc_eqi(irow.size(),m.neq+1,"row pointers");
  if ((int)dofc.size() != m.neq || (int)irow.size() != m.neq+1) return;
  int k = 0;
  for (int i = 0; i < m.neq; i++) {
    vc_eqi(irow[i],k,"row pointers count the couplings of the rows before");
    int cnt = 0;
    for (int j = 0; j < m.neq; j++) {
      vc_eqi(dofc[i].count(j+1),want[i][j],"exactly the equations sharing an element are coupled");
      if (want[i][j]) {
        if (k < (int)jcol.size()) vc_eqi(jcol[k],j+1,"column indices in ascending order");
        k++; cnt++;
      }
    }
    vc_eqi(dofc[i].size(),cnt,"number of couplings of an equation");
  }
  vc_eqi(irow[m.neq],k,"total number of couplings");
  vc_eqi(jcol.size(),k,"number of column indices");
}

CONTRACT(H_couplings_2x2) { couplings(0); }
CONTRACT(H_couplings_121) { couplings(1); }
CONTRACT(T_couplings_31)  { couplings(2); }
CONTRACT(T_couplings_1111){ couplings(3); }

//! Inconsistent tables are refused
CONTRACT(H_refused)
{
  TModel m;
  m.nd = { 2, 1 };
  m.kind = { '1', 'C', '1' };
  int w = vc_pick("what",0,7);
  m.ceqDof.push_back(2);
  m.c0.push_back(vc_real("c0"));
  m.mst.push_back({});
  m.mst[0].push_back(std::make_pair(1,vc_real("cm")));
  m.mst[0].push_back(std::make_pair(3,vc_real("cm")));
  switch (w) {
  case 1: m.ceqDof[0] = 0; break;
  case 2: m.ceqDof[0] = 4; break;
  case 3: m.kind[1] = '1'; break;
  case 4: m.mst[0][1].first = 4; break;
  case 5: m.mst[0][0].first = -1; break;
  case 6: m.kind[2] = 'F'; break;
  case 7: m.mst[0][1].first = 2; break;
  }
  TSam s(m);
  vc_eqi(s.ok,w == 0,"only consistent constraint tables are accepted");
}
