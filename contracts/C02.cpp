// VC-TU: src/LinAlg/SAM.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/SparseMatrix.C src/LinAlg/DiagMatrix.C src/LinAlg/MatVec.C src/Utility/LogStream.C
// VC-INCLUDE: sam.inc
// VC-TIME: 250
// VC-PATHS: 30000
// VC-FLAGS: -UHAS_ISTL
// VC-ASSUME: the optional ISTL matrix classes are left out of the compilation of SystemMatrix.C (only its factory refers to them)
#include "vc.h"
#include "sam.inc"
#include "DenseMatrix.h"
#include "SparseMatrix.h"
#include "DiagMatrix.h"
#include "IFEM.h"
#include <iostream>

utl::LogStream IFEM::cout(std::cout);

typedef std::vector< std::vector<double> > Tab;

//! Adds T'(k)T and T'(f - k g) of an element
static void transform(const TModel& m, const std::vector<int>& ed, const Matrix& k, Tab* K, RealArray* R)
{
  for (size_t i = 0; i < ed.size(); i++)
    if (ed[i] >= 0)
      for (size_t j = 0; j < ed.size(); j++)
        if (ed[j] >= 0)
          for (int p = 0; p < m.neq; p++)
            if (m.kind[ed[i]] == 'C' || m.eq[ed[i]] == p+1) {
              double ti = m.T[ed[i]][p];
              if (R && m.kind[ed[j]] == 'C') (*R)[p] -= ti*k(i+1,j+1)*m.g[ed[j]];
              if (K)
                for (int q = 0; q < m.neq; q++)
                  if (m.kind[ed[j]] == 'C' || m.eq[ed[j]] == q+1)
                    (*K)[p][q] += ti*k(i+1,j+1)*m.T[ed[j]][q];
            }
}

static void addElems(TModel& m, int w)
{
  int nn = m.nd.size();
  m.elems.push_back({});
  for (int i = 1; i <= nn; i++) m.elems[0].push_back(i);
  switch (w) {
  case 0: m.elems.push_back({nn,1}); break;
  case 1: m.elems.push_back({nn,-1,2}); break;
  default: m.elems.push_back({2,2}); break; // the same node twice
  }
}

static Matrix elmMat(size_t n, const char* nm)
{
  Matrix k(n,n);
  vc_fill(k.ptr(),n*n,nm);
  return k;
}

static void compare(const TModel& m, const Tab& K, SystemMatrix& A, const char* txt)
{
  DenseMatrix* dm = dynamic_cast<DenseMatrix*>(&A);
  const SparseMatrix* sm = dynamic_cast<const SparseMatrix*>(&A);
  const DiagMatrix*   gm = dynamic_cast<const DiagMatrix*>(&A);
  vc_eqi(A.dim(1),m.neq,"dimension of the system matrix");
  if ((int)A.dim(1) != m.neq) return;
  for (int p = 1; p <= m.neq; p++)
    for (int q = 1; q <= m.neq; q++)
      if (!gm || p == q)
        vc_eq(dm ? dm->getMat()(p,q) : sm ? (*sm)(p,q) : (*gm)(p),K[p-1][q-1],txt);
}

static SystemMatrix* make(int type)
{
  return type == 0 ? static_cast<SystemMatrix*>(new DenseMatrix()) :
         type == 1 || type == 3 ? static_cast<SystemMatrix*>(new SparseMatrix(SparseMatrix::SUPERLU)) :
         type == 4 ? static_cast<SystemMatrix*>(new SparseMatrix(SparseMatrix::S_A_M_G)) :
                     static_cast<SystemMatrix*>(new DiagMatrix());
}

static void assembly(int mesh, int type)
{
  TModel m = pickModel(mesh,false);
  addElems(m,mesh%3);
  TSam s(m);
  if (!s.ok || m.neq == 0) return;
  Tab K(m.neq,RealArray(m.neq,0.0));
  RealArray R(m.neq,0.0);
  SystemMatrix* A = make(type);
  StdVector b(m.neq), b2(m.neq);
  A->initAssembly(s,type >= 3 ? 'F' : '\0');
  vc_fill(b.ptr(),m.neq,"r0");
  for (int p = 0; p < m.neq; p++) R[p] = b2[p] = b[p];
  if (m.ceqDof.size() > 1 && m.neq > 1) vc_cover("several constraints");
  for (int e = 1; e <= 2; e++) {
    std::vector<int> ed = m.elmDofs(e-1);
    Matrix k = elmMat(ed.size(),"k");
    if (type == 2) // stiffness contributions only
      vc_true(s.assembleSystem(*A,k,e),"element matrix accepted");
    else
      vc_true(s.assembleSystem(*A,b,k,e),"element matrix accepted");
    vc_true(s.assembleSystem(b2,k,e),"element matrix accepted for the right-hand side");
    transform(m,ed,k,&K,&R);
    // element load vector
    RealArray f(ed.size());
    vc_fill(f.data(),f.size(),"f");
    vc_true(s.assembleSystem(b,f,e),"element vector accepted");
    vc_true(s.assembleSystem(b2,f,e),"element vector accepted");
    for (size_t i = 0; i < ed.size(); i++)
      if (ed[i] >= 0)
        for (int p = 0; p < m.neq; p++) R[p] += m.T[ed[i]][p]*f[i];
    bool refused = type == 2 ? s.assembleSystem(*A,Matrix(ed.size()+1,ed.size()+1),e)
                             : s.assembleSystem(*A,b,Matrix(ed.size()+1,ed.size()+1),e);
    vc_true(!refused,"mismatching element dimension refused");
  }
  compare(m,K,*A,"system matrix equals T'kT");
  for (int p = 0; p < m.neq; p++) {
    if (type != 2) vc_eq(b[p],R[p],"right-hand side equals T'(f - kg)");
    vc_eq(b2[p],R[p],"right-hand side assembled alone equals T'(f - kg)");
  }
  delete A;
}

CONTRACT(H_dense_2x2)  { assembly(0,0); }
CONTRACT(H_dense_121)  { assembly(1,0); }
CONTRACT(H_sparse_2x2) { assembly(0,1); }
CONTRACT(H_sparse_31)  { assembly(2,1); }
CONTRACT(H_sparse_locked_121) { assembly(1,3); }
CONTRACT(H_sparse_locked_31)  { assembly(2,3); }
CONTRACT(T_dense_31)   { assembly(2,0); }
CONTRACT(T_sparse_121) { assembly(1,1); }
CONTRACT(T_dense_1111) { assembly(3,0); }
CONTRACT(T_sparse_1111){ assembly(3,1); }
CONTRACT(T_sparse_locked_2x2) { assembly(0,3); }

//! Loads given for a node, for a single degree of freedom and for all of them
CONTRACT(H_nodal_loads)
{
  TModel m = pickModel(1,false,1);
  TSam s(m);
  if (!s.ok) return;
  StdVector b(m.neq);
  vc_fill(b.ptr(),m.neq,"r0");
  RealArray R(b);
  int n = vc_pick("node",0,m.nd.size()+1), w = vc_pick("what",0,2);
  if (w == 0) {
    double f[4];
    vc_fill(f,4,"f");
    bool ok = s.assembleSystem(b,f,n);
    vc_eqi(ok,n > 0 && n <= (int)m.nd.size(),"only existing nodes are loaded");
    if (ok)
      for (int j = 0; j < m.nd[n-1]; j++)
        for (int p = 0; p < m.neq; p++) R[p] += m.T[m.first[n-1]+j][p]*f[j];
  }
  else if (w == 1) {
    int l = vc_pick("dof",0,4);
    double f = vc_real("f");
    bool ok = s.assembleSystem(b,f,std::make_pair(n,l));
    vc_eqi(ok,n > 0 && n <= (int)m.nd.size() && l > 0 && l <= m.nd[n > 0 && n <= (int)m.nd.size() ? n-1 : 0],"only existing dofs are loaded");
    if (ok)
      for (int p = 0; p < m.neq; p++) R[p] += m.T[m.first[n-1]+l-1][p]*f;
  }
  else {
    vc_assume(n == 0);
    int sz = vc_pick("size",0,m.ndof+1);
    RealArray f(sz);
    vc_fill(f.data(),sz,"f");
    s.addToRHS(b,f);
    for (int d = 0; d < m.ndof && d < sz; d++)
      for (int p = 0; p < m.neq; p++) R[p] += m.T[d][p]*f[d];
  }
  for (int p = 0; p < m.neq; p++) vc_eq(b[p],R[p],"right-hand side gets T' times the load and nothing else");
}

//! Assembly by explicitly given equation numbers (zero-based), also of several right-hand sides at once
CONTRACT(H_explicit_equations)
{
  int neq = vc_pick("neq",1,3), n = vc_pick("n",1,3), type = vc_pick("type",0,2);
  IntVec meq(n);
  for (int& i : meq) i = vc_pick("eq",0,2);
  for (int i : meq) vc_assume(i < neq);
  DenseMatrix dm(neq,neq);
  SparseMatrix sm(neq,neq);
  DiagMatrix gm(neq);
  SystemMatrix& A = type == 0 ? static_cast<SystemMatrix&>(dm) : type == 1 ? static_cast<SystemMatrix&>(sm) : static_cast<SystemMatrix&>(gm);
  Tab K(neq,RealArray(neq,0.0));
  for (int e = 0; e < 2; e++) {
    Matrix k = elmMat(n,"k");
    vc_true(A.assemble(k,meq),"accepted");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (type != 2 || i == j) K[meq[i]][meq[j]] += k(i+1,j+1);
  }
  for (int p = 0; p < neq; p++)
    for (int q = 0; q < neq; q++)
      if (type == 0) vc_eq(dm.getMat()(p+1,q+1),K[p][q],"entries added at the given equations");
      else if (type == 1) vc_eq(sm(p+1,q+1),K[p][q],"entries added at the given equations");
      else if (p == q) vc_eq(gm(p+1),K[p][p],"entries added at the given equations");
  int nrhs = vc_pick("nrhs",1,2);
  StdVector b(neq*nrhs);
  vc_fill(b.ptr(),b.size(),"r0");
  RealArray R(b);
  Vectors v(nrhs,Vector(n));
  for (int r = 0; r < nrhs; r++) {
    vc_fill(v[r].ptr(),n,"f");
    for (int i = 0; i < n; i++) R[r*neq+meq[i]] += v[r][i];
  }
  b.assemble(v,meq,neq);
  for (size_t i = 0; i < R.size(); i++) vc_eq(b[i],R[i],"load vectors stored one after the other");
  IntVec bad(meq);
  bad.back() = -1;
  vc_true(!A.assemble(elmMat(n,"k"),bad),"negative equation numbers are refused");
}
