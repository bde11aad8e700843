// VC-TU: src/ASM/AlgEqSystem.C src/ASM/ElmMats.C src/LinAlg/SparseMatrix.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/DiagMatrix.C src/LinAlg/SAM.C src/LinAlg/MatVec.C src/Utility/LogStream.C
// VC-INCLUDE: sam.inc solver.inc
// VC-TIME: 150
// VC-FLAGS: -UHAS_ISTL
#include "vc.h"
#include "sam.inc"
#include "MatVec.h"
#include "AlgEqSystem.h"
#include "ElmMats.h"
#include "SparseMatrix.h"
#include "DenseMatrix.h"
#include "IFEM.h"
#include "Profiler.h"
#include "solver.inc"
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

typedef std::vector< std::vector<double> > Tab;

static TModel makeModel(int which)
{
  TModel m;
  if (which == 0) {        // all free
    m.nd = { 2, 1 };
    m.kind = { '1','1','1' };
    m.elems = { {1,2}, {2} };
  }
  else if (which == 1) {   // a fixed, a prescribed and a slave dof
    m.nd = { 2, 1, 1 };
    m.kind = { 'F','1','C','C' };
    m.elems = { {2,1}, {3,2} };
    m.ceqDof = { 3, 4 };
    m.c0 = { vc_real("c0"), vc_real("c0") };
    m.mst = { { { 2,vc_real("cm") } }, {} };
  }
  else {                   // all free, one dof per node
    m.nd.assign(which,1);
    m.kind.assign(which,'1');
    for (int i = 1; i <= which; i++) m.elems.push_back({i});
  }
  m.derive();
  return m;
}

//! What the equation system should hold
struct Sum
{
  const TModel& m;
  std::vector<Tab> A;
  Tab b;
  std::vector<double> c, R; // reactions per dof
  Sum(const TModel& tm, int na, int nb, int nc) : m(tm), A(na,Tab(tm.neq,std::vector<double>(tm.neq,0.0))),
    b(nb,std::vector<double>(tm.neq,0.0)), c(nc,0.0), R(tm.ndof,0.0) {}
  Sum(const Sum&) = default;
  Sum& operator=(const Sum& s) { A = s.A; b = s.b; c = s.c; R = s.R; return *this; }
  void addRhs(int i, const Vector& f, int e, bool reac)
  {
    std::vector<int> d = m.elmDofs(e);
    for (size_t k = 0; k < d.size(); k++) {
      for (int q = 0; q < m.neq; q++) b[i][q] += m.T[d[k]][q]*f[k];
      if (reac) R[d[k]] += f[k];
    }
  }
  void addLhs(int i, int ib, const Matrix& K, int e, bool lhs, bool reac)
  {
    std::vector<int> d = m.elmDofs(e);
    for (size_t k = 0; k < d.size(); k++)
      for (size_t l = 0; l < d.size(); l++) {
        double kg = K(k+1,l+1)*m.g[d[l]];
        for (int q = 0; q < m.neq; q++) {
          if (lhs)
            for (int r = 0; r < m.neq; r++)
              A[i][q][r] += m.T[d[k]][q]*K(k+1,l+1)*m.T[d[l]][r];
          if (ib >= 0) b[ib][q] -= m.T[d[k]][q]*kg;
        }
        if (reac) R[d[k]] -= kg;
      }
  }
};

static double entry(SystemMatrix* A, int i, int j)
{
  if (DenseMatrix* D = dynamic_cast<DenseMatrix*>(A)) return (*D)(i,j);
  return const_cast<const SparseMatrix&>(*static_cast<SparseMatrix*>(A))(i,j);
}

static void check(AlgEqSystem& s, const TModel& m, const TSam& sam, const Sum& want, bool reac)
{
  for (size_t k = 0; k < want.A.size(); k++) {
    SystemMatrix* A = s.getMatrix(k);
    vc_true(A != nullptr,"matrix exists");
    if (!A) return;
    for (int i = 0; i < m.neq; i++)
      for (int j = 0; j < m.neq; j++)
        vc_eq(entry(A,i+1,j+1),want.A[k][i][j],"system matrix");
  }
  vc_true(s.getMatrix(want.A.size()) == nullptr,"no more matrices");
  vc_eqi(s.getNoRHS(),want.b.size(),"number of right-hand-sides");
  for (size_t k = 0; k < want.b.size(); k++) {
    SystemVector* b = s.getVector(k);
    vc_true(b != nullptr,"vector exists");
    if (!b) return;
    vc_eqi(b->dim(),m.neq,"size of the right-hand-side");
    for (int i = 0; i < m.neq; i++)
      vc_eq(b->getRef()[i],want.b[k][i],"system right-hand-side");
  }
  vc_true(s.getVector(want.b.size()) == nullptr,"no more vectors");
  vc_eqi(s.getScalars().size(),want.c.size(),"number of scalars");
  for (size_t k = 0; k < want.c.size(); k++) vc_eq(s.getScalar(k),want.c[k],"global scalar");
  vc_eq(s.getScalar(want.c.size()),0.0,"no such scalar");
  if (reac && sam.getNoSpecifiedDOFs() > 0) {
    const RealArray* R = s.getReactions();
    vc_true(R != nullptr,"reaction forces exist");
    if (!R) return;
    vc_eqi(R->size(),sam.getNoSpecifiedDOFs(),"number of reaction forces");
    for (int d = 0; d < m.ndof; d++)
      if (m.kind[d] == 'F' || m.kind[d] == 'C')
        vc_eq((*R)[-sam.status(d+1)-1],want.R[d],"reaction force");
  }
  else
    vc_true(s.getReactions() == nullptr,"no reaction forces");
}

static ElmMats* element(int n, int na, int nb, int nc, bool withLHS, bool rhsOnly)
{
  ElmMats* e = new ElmMats(withLHS);
  e->rhsOnly = rhsOnly;
  e->resize(na,nb,nc);
  e->redim(n);
  for (Matrix& k : e->A) vc_fill(k.ptr(),n*n,"k");
  for (Vector& f : e->b) vc_fill(f.ptr(),n,"f");
  for (double& v : e->c) v = vc_real("c");
  return e;
}

static LinAlg::MatrixType pickType()
{
  return vc_pick("format",0,1) ? LinAlg::SPARSE : LinAlg::DENSE;
}

// One matrix: the first right-hand-side belongs to it, the others are additional load vectors
CONTRACT(H_one_matrix)
{
  TModel m = makeModel(vc_pick("model",0,1));
  TSam sam(m);
  LinAlg::MatrixType type = pickType();
  int nb = vc_pick("vectors",1,2), nc = vc_pick("scalars",0,2), reac = vc_pick("reactions",0,1);
  AlgEqSystem s(sam);
  vc_true(s.init(type,nullptr,1,nb,nc,reac),"initialized");
  Sum want(m,1,nb,nc);
  check(s,m,sam,want,reac);
  reac = s.getReactions() != nullptr;
  int kind = vc_pick("element kind",0,3);
  for (int step = 0; step < 2; step++) {
    int newLHS = step == 0 ? 1 : vc_pick("new left-hand-side",0,2);
    s.initialize(newLHS);
    Tab A0 = want.A.front();
    want = Sum(m,1,nb,nc);
    if (!newLHS) want.A.front() = A0;
    check(s,m,sam,want,reac);
    int ne = step == 0 ? 2 : 1;
    for (int e = 1; e <= ne; e++) {
      std::vector<int> d = m.elmDofs(e-1);
      bool lhs = kind < 2 || (kind == 3 && e == 1), rhsOnly = kind == 1 || (step == 1 && !newLHS);
      ElmMats* elm = element(d.size(),kind == 2 ? 0 : 1,kind == 0 ? nb : 2,nc > 0 ? 2 : 0,lhs,rhsOnly);
      vc_true(s.assemble(elm,e),"element assembled");
      want.addRhs(0,elm->b[0],e-1,reac);
      if (lhs) want.addLhs(0,0,elm->A[0],e-1,!rhsOnly,reac);
      if (nb > 1) want.addRhs(1,elm->b[1],e-1,false);
      for (int i = 0; i < nc; i++) want.c[i] += elm->c[i];
      delete elm;
    }
    if (nc > 0) { double v = vc_real("extra"); s.addScalar(v,nc-1); s.addScalar(v,nc); want.c[nc-1] += v; }
    vc_true(s.finalize(newLHS),"finalized");
    check(s,m,sam,want,reac);
  }
}

// Several matrices, each with its own or a common right-hand-side for the prescribed values
CONTRACT(H_several_matrices)
{
  TModel m = makeModel(vc_pick("model",0,1));
  TSam sam(m);
  LinAlg::MatrixType type = pickType();
  int nb = vc_pick("vectors",0,2), rhsOnly = vc_pick("rhs only",0,1);
  AlgEqSystem s(sam);
  vc_true(s.init(type,nullptr,2,nb,1,true),"initialized");
  int asc[2];
  for (int i = 0; i < 2; i++) {
    asc[i] = vc_pick("associated",-1,nb);
    if (asc[i] < 0) continue;
    vc_eqi(s.setAssociatedVector(i,asc[i]),asc[i] < nb,"associated vector");
    if (asc[i] >= nb) asc[i] = -1;
  }
  vc_true(!s.setAssociatedVector(2,0),"no such matrix");
  s.initialize(1);
  Sum want(m,2,nb,1);
  for (int e = 1; e <= 2; e++) {
    std::vector<int> d = m.elmDofs(e-1);
    int na = e == 1 ? 2 : 1;
    ElmMats* elm = element(d.size(),na,2,1,true,rhsOnly);
    vc_true(s.assemble(elm,e),"element assembled");
    for (int i = 0; i < nb; i++) want.addRhs(i,elm->b[i],e-1,false);
    for (int i = 0; i < na; i++) want.addLhs(i,asc[i],elm->A[i],e-1,!rhsOnly,false);
    want.c[0] += elm->c[0];
    delete elm;
  }
  vc_true(s.finalize(true),"finalized");
  check(s,m,sam,want,false);
}

// An element without matrices, and an object that is no element
CONTRACT(H_nothing_to_assemble)
{
  TModel m = makeModel(0);
  TSam sam(m);
  AlgEqSystem s(sam);
  vc_true(s.init(LinAlg::DENSE,nullptr,1,1,0,false),"initialized");
  s.initialize(1);
  ElmMats none;
  LocalIntegral other;
  vc_true(s.assemble(&none,1),"an empty element is left out");
  vc_true(!s.assemble(&other,1),"not an element");
  vc_true(!s.assemble(nullptr,1),"not an element");
  vc_true(s.finalize(true),"finalized");
  Sum want(m,1,1,0);
  check(s,m,sam,want,false);
}

// Changing the number of matrices and vectors
CONTRACT(H_initialized_again)
{
  TModel m = makeModel(1);
  TSam sam(m);
  AlgEqSystem s(sam);
  int reac = 0;
  for (int t = 0; t < 2; t++) {
    int na = vc_pick("matrices",0,2), nb = vc_pick("vectors",0,2), nc = vc_pick("scalars",0,1);
    reac = vc_pick("reactions",0,1);
    vc_true(s.init(LinAlg::DENSE,nullptr,na,nb,nc,reac),"initialized");
    s.initialize(1);
    Sum want(m,na,nb,nc);
    check(s,m,sam,want,reac && na == 1 && nb > 0);
    if (t == 0) {
      ElmMats* elm = element(3,na,nb,nc,na > 0,false);
      if (!elm->empty()) vc_true(s.assemble(elm,1),"element assembled");
      delete elm;
    }
  }
  s.clear();
  Sum none(m,0,0,0);
  check(s,m,sam,none,false);
}

// Copies are independent, adding is element-wise
CONTRACT(H_copy_and_add)
{
  TModel m = makeModel(1);
  TSam sam(m);
  LinAlg::MatrixType type = pickType();
  int na = vc_pick("matrices",0,2), nb = vc_pick("vectors",0,3), nc = 2;
  bool reac = na == 1 && nb > 0;
  AlgEqSystem s(sam);
  vc_true(s.init(type,nullptr,na,nb,nc,true),"initialized");
  s.initialize(1);
  if (na == 2 && nb > 0) s.setAssociatedVector(1,nb-1);
  Sum want(m,na,nb,nc);
  auto assemble = [&m,na,nb,nc,reac](AlgEqSystem& sys, Sum& w, int ie)
  {
    ElmMats* elm = element(m.elmDofs(ie-1).size(),na,nb,nc,na > 0,false);
    if (!elm->empty()) {
      vc_true(sys.assemble(elm,ie),"element assembled");
      for (int i = 0; i < nb; i++) w.addRhs(i,elm->b[i],ie-1,reac && i == 0);
      for (int i = 0; i < na; i++) w.addLhs(i,reac ? 0 : i == 1 ? nb-1 : -1,elm->A[i],ie-1,true,reac);
      for (int i = 0; i < nc; i++) w.c[i] += elm->c[i];
    }
    delete elm;
  };
  assemble(s,want,1);
  vc_true(s.finalize(true),"finalized");
  AlgEqSystem c(s), d(sam);
  d = s;
  check(c,m,sam,want,reac);
  check(d,m,sam,want,reac);
  Sum wd(want), ws(want);
  s.initialize(0); // the right-hand-sides of the copies are not affected
  check(c,m,sam,want,reac);
  d.initialize(1);
  wd = Sum(m,na,nb,nc);
  assemble(d,wd,2);
  vc_true(d.finalize(true),"finalized");
  check(d,m,sam,wd,reac);
  check(c,m,sam,want,reac);
  c.add(d);
  for (int k = 0; k < na; k++) for (int i = 0; i < m.neq; i++) for (int j = 0; j < m.neq; j++) want.A[k][i][j] += wd.A[k][i][j];
  for (int k = 0; k < nb; k++) for (int i = 0; i < m.neq; i++) want.b[k][i] += wd.b[k][i];
  for (int k = 0; k < nc; k++) want.c[k] += wd.c[k];
  for (int i = 0; i < m.ndof; i++) want.R[i] += wd.R[i];
  check(c,m,sam,want,reac);
  check(d,m,sam,wd,reac);
}

//! The retained equations of some nodes, and the others
static void partition(const TModel& m, const std::vector<int>& ext, std::vector<int>& e1, std::vector<int>& e2)
{
  for (int q = 0; q < m.neq; q++) {
    bool retained = false;
    for (int n : ext)
      for (int d = m.first[n-1]; d < m.first[n]; d++)
        if (m.eq[d] == q+1) retained = true;
    (retained ? e2 : e1).push_back(q);
  }
}

static std::vector<int> pickNodes(const TModel& m)
{
  std::vector<int> ext;
  int nn = m.nd.size();
  for (int i = 1; i <= nn; i++)
    if (vc_pick("external",0,1)) ext.push_back(i);
  if (ext.size() > 1 && vc_pick("reversed",0,1)) std::vector<int>(ext.rbegin(),ext.rend()).swap(ext);
  return ext;
}

static void fillSystem(AlgEqSystem& s, const TModel& m, Tab& K, std::vector<double>& F)
{
  int n = m.neq;
  s.initialize(1);
  K.assign(n,std::vector<double>(n,0.0));
  F.assign(n,0.0);
  SparseMatrix& A = static_cast<SparseMatrix&>(*s.getMatrix());
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) A(i+1,j+1) = K[i][j] = vc_real("k");
    s.getVector()->getPtr()[i] = F[i] = vc_real("f");
  }
  A.flagNonZeroEq();
}

//! u = inv(A11)*v
static std::vector<double> solve11(const Tab& K, const std::vector<int>& e1, const std::vector<double>& v)
{
  if (e1.size() == 1) return { v[0]/K[e1[0]][e1[0]] };
  double a = K[e1[0]][e1[0]], b = K[e1[0]][e1[1]], c = K[e1[1]][e1[0]], d = K[e1[1]][e1[1]], D = a*d-b*c;
  return { (d*v[0]-b*v[1])/D, (a*v[1]-c*v[0])/D };
}

static bool regular11(const Tab& K, const std::vector<int>& e1)
{
  if (e1.size() == 1) return K[e1[0]][e1[0]] != 0.0;
  return K[e1[0]][e1[0]]*K[e1[1]][e1[1]] != K[e1[0]][e1[1]]*K[e1[1]][e1[0]];
}

// Static condensation to the dofs of the external nodes
CONTRACT(H_condensation)
{
  TModel m = makeModel(vc_pick("model",0,1) ? 3 : 0);
  TSam sam(m);
  AlgEqSystem s(sam);
  vc_true(s.init(LinAlg::SPARSE,nullptr,1,1),"initialized");
  Tab K;
  std::vector<double> F;
  fillSystem(s,m,K,F);
  std::vector<int> ext = pickNodes(m), e1, e2;
  partition(m,ext,e1,e2);
  Matrix Ar;
  Vector br;
  bool possible = !e1.empty() && !e2.empty() && regular11(K,e1);
  bool ok = s.staticCondensation(Ar,br,ext);
  vc_eqi(ok,possible,"success exactly if there are internal and external dofs and the internal ones can be eliminated");
  if (!ok || !possible) return;
  size_t n1 = e1.size(), n2 = e2.size();
  vc_eqi(Ar.rows(),n2,"size of the reduced matrix");
  vc_eqi(Ar.cols(),n2,"size of the reduced matrix");
  vc_eqi(br.size(),n2,"size of the reduced right-hand-side");
  if (Ar.rows() != n2 || Ar.cols() != n2 || br.size() != n2) return;
  std::vector<double> v(n1), u;
  for (size_t i = 0; i < n1; i++) v[i] = F[e1[i]];
  u = solve11(K,e1,v);
  for (size_t i = 0; i < n2; i++) {
    double f = F[e2[i]];
    for (size_t k = 0; k < n1; k++) f -= K[e2[i]][e1[k]]*u[k];
    vc_eq(br[i],f,"reduced right-hand-side");
  }
  for (size_t j = 0; j < n2; j++) {
    for (size_t i = 0; i < n1; i++) v[i] = K[e1[i]][e2[j]];
    u = solve11(K,e1,v);
    for (size_t i = 0; i < n2; i++) {
      double a = K[e2[i]][e2[j]];
      for (size_t k = 0; k < n1; k++) a -= K[e2[i]][e1[k]]*u[k];
      vc_eq(Ar(i+1,j+1),a,"reduced matrix");
    }
  }
}

CONTRACT(H_condensation_refused)
{
  TModel m = makeModel(1);
  TSam sam(m);
  AlgEqSystem s(sam), d(sam), none(sam);
  vc_true(s.init(LinAlg::SPARSE,nullptr,1,1),"initialized");
  vc_true(d.init(LinAlg::DENSE,nullptr,1,1),"initialized");
  Matrix Ar;
  Vector br;
  vc_true(!s.staticCondensation(Ar,br,{1}),"specified dofs can not be retained");
  vc_true(!s.staticCondensation(Ar,br,{4}),"no such node");
  vc_true(!s.staticCondensation(Ar,br,{1},1),"no such matrix");
  vc_true(!s.staticCondensation(Ar,br,{1},2),"no such matrix");
  vc_true(!none.staticCondensation(Ar,br,{1}),"no such matrix");
  vc_true(!d.staticCondensation(Ar,br,{1}),"not for dense matrices");
}

// The internal dofs are recovered from the external ones and the expanded solution fulfils the equations
CONTRACT(H_recovery)
{
  TModel m = makeModel(vc_pick("model",0,1) ? 3 : 0);
  TSam sam(m);
  AlgEqSystem s(sam);
  vc_true(s.init(LinAlg::SPARSE,nullptr,1,1),"initialized");
  std::vector<int> ext = pickNodes(m), e1, e2;
  partition(m,ext,e1,e2);
  size_t n1 = e1.size(), n2 = e2.size();
  if (n1 == 0 || n2 == 0) return;
  Matrix R(n1,1+n2);
  vc_fill(R.ptr(),R.size(),"r");
  Vector xe(n2), x, bad(n2+1);
  vc_fill(xe.ptr(),n2,"xe");
  vc_true(s.recoverInternals(R,ext,xe,x),"recovered");
  vc_eqi(x.size(),m.ndof,"one value per dof");
  if ((int)x.size() != m.ndof) return;
  for (int d = 0; d < m.ndof; d++) {
    int q = m.eq[d]-1;
    for (size_t i = 0; i < n2; i++) if (e2[i] == q) vc_eq(x[d],xe[i],"external dofs are kept");
    for (size_t i = 0; i < n1; i++)
      if (e1[i] == q) {
        double v = R(i+1,1);
        for (size_t j = 0; j < n2; j++) v += R(i+1,j+2)*xe[j];
        vc_eq(x[d],v,"internal dofs are recovered");
      }
  }
  vc_true(!s.recoverInternals(R,ext,bad,x),"wrong number of external dofs");
}

// Through the recovery matrix file
CONTRACT(N_recovery_file)
{
  TModel m = makeModel(3);
  TSam sam(m);
  AlgEqSystem s(sam);
  vc_true(s.init(LinAlg::SPARSE,nullptr,1,1),"initialized");
  Tab K;
  std::vector<double> F;
  fillSystem(s,m,K,F);
  std::vector<int> ext = pickNodes(m), e1, e2;
  partition(m,ext,e1,e2);
  if (e1.empty() || e2.empty()) return;
  for (int i = 0; i < m.neq; i++) K[i][i] += 20.0;
  for (int i = 0; i < m.neq; i++) static_cast<SparseMatrix&>(*s.getMatrix())(i+1,i+1) = K[i][i];
  char name[] = "/tmp/vcrecXXXXXX";
  int fd = mkstemp(name);
  if (fd < 0) return;
  close(fd);
  Matrix Ar, R;
  Vector br, x;
  vc_true(s.staticCondensation(Ar,br,ext,0,name),"condensed");
  bool ok = AlgEqSystem::readRecoveryMatrix(R,name);
  unlink(name);
  vc_true(ok,"recovery matrix is read back");
  Vector xe(e2.size());
  vc_fill(xe.ptr(),e2.size(),"xe");
  vc_true(s.recoverInternals(R,ext,xe,x),"recovered");
  for (size_t k = 0; k < e1.size(); k++) {
    double r = -F[e1[k]];
    for (int j = 0; j < m.neq; j++)
      for (int d = 0; d < m.ndof; d++)
        if (m.eq[d] == j+1) r += K[e1[k]][j]*x[d];
    vc_near(r,0.0,1.0e-8,"internal equations are fulfilled");
  }
  vc_true(!AlgEqSystem::readRecoveryMatrix(R,name),"no such file");
}
