// VC-TU: src/LinAlg/SAM.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/DiagMatrix.C src/LinAlg/MatVec.C
// VC-INCLUDE: sam.inc
// VC-TIME: 250
// VC-FLAGS: -UHAS_ISTL
// VC-ASSUME: the optional ISTL matrix classes are left out of the compilation of SystemMatrix.C (only its factory refers to them)
#include "vc.h"
#include "sam.inc"
#include "SystemMatrix.h"

static void expand(int mesh)
{
  TModel m = pickModel(mesh,true);
  TSam s(m);
  if (!s.ok) return;
  StdVector x(m.neq);
  vc_fill(x.ptr(),m.neq,"x");
  double scale = vc_real("scale");
  Vector u(vc_pick("before",0,1) ? m.ndof : 2);
  vc_fill(u.ptr(),u.size(),"old");
  vc_true(s.expandSolution(x,u,scale),"expanded");
  vc_eqi(u.size(),m.ndof,"one value for each degree of freedom");
  if ((int)u.size() != m.ndof) return;
  for (int d = 0; d < m.ndof; d++) {
    double v = m.kind[d] == 'C' ? scale*m.g[d] : 0.0;
    for (int p = 0; p < m.neq; p++) v += m.T[d][p]*x[p];
    vc_eq(u[d],v,"free values, zero for fixed, constraint equation for constrained dofs");
  }
  if (m.neq > 0 && m.ceqDof.size() > 1) vc_cover("free and constrained dofs");
  // without prescribed part
  Vector w(u), xv(x);
  vc_true(s.expandVector(xv,w),"expanded");
  for (int d = 0; d < m.ndof && (int)w.size() == m.ndof; d++) {
    double v = 0.0;
    for (int p = 0; p < m.neq; p++) v += m.T[d][p]*x[p];
    vc_eq(w[d],v,"expansion without the prescribed part");
  }
  // a longer solution vector is accepted, a shorter one refused
  if (m.neq > 0) {
    StdVector y(m.neq-1);
    vc_true(!s.expandSolution(y,u,scale),"a solution vector that is too short is refused");
    vc_true(!s.expandVector(Vector(m.neq-1),u),"a solution vector that is too short is refused");
  }
  // back-extraction of the free values
  RealArray z;
  vc_true(s.getSolVec(z,u),"extracted");
  vc_eqi(z.size(),m.neq,"number of extracted values");
  for (int p = 0; p < m.neq && (int)z.size() == m.neq; p++) vc_eq(z[p],x[p],"extraction gives the free values back");
}

CONTRACT(H_expand_2x2) { expand(0); }
CONTRACT(H_expand_121) { expand(1); }
CONTRACT(H_expand_31)  { expand(2); }
CONTRACT(T_expand_212) { expand(4); }

CONTRACT(H_no_equation_numbers)
{
  TModel m = pickModel(1,false,1);
  TSam s(m,false);
  Vector u;
  RealArray z;
  vc_true(!s.expandVector(Vector(4),u) && !s.getSolVec(z,u) && !s.applyDirichlet(u),"nothing is expanded before the equations are numbered");
}

//! Prescribed values put into a full vector, single values read from it
CONTRACT(H_dof_values)
{
  TModel m = pickModel(vc_pick("mesh",0,2),true,0);
  TSam s(m);
  if (!s.ok) return;
  Vector u(m.ndof);
  vc_fill(u.ptr(),m.ndof,"u");
  RealArray old(u);
  vc_true(s.applyDirichlet(u),"applied");
  for (int d = 0; d < m.ndof; d++)
    vc_eq(u[d],m.kind[d] == 'F' ? 0.0 : m.kind[d] == 'C' ? m.g[d] : old[d],"prescribed and fixed values set, free ones kept");
  for (int n = 0; n <= (int)m.nd.size()+1; n++)
    for (int l = 0; l <= 4; l++) {
      bool in = n > 0 && n <= (int)m.nd.size() && l > 0 && l <= m.nd[n-1];
      vc_eq(s.getDofVal(old,n,l),in ? old[m.first[n-1]+l-1] : 0.0,"value of a nodal dof");
    }
  RealArray part(old.begin(),old.begin()+2);
  vc_eq(s.getDofVal(part,m.nd.size(),1),0.0,"no value beyond the vector");
}
