// VC-TU: src/ASM/GlbL2projector.C src/ASM/ASMbase.C src/ASM/IntegrandBase.C src/ASM/ElmMats.C src/LinAlg/SparseMatrix.C src/LinAlg/SystemMatrix.C src/LinAlg/DenseMatrix.C src/LinAlg/DiagMatrix.C src/LinAlg/SAM.C src/LinAlg/MatVec.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/Utility/LogStream.C src/Utility/Utilities.C src/Utility/Functions.C src/Utility/Vec3Oper.C src/Utility/Tensor.C
// VC-INCLUDE: solver.inc patch.inc
// VC-FLAGS: -UHAS_ISTL
// VC-TIME: 150
// VC-ASSUME: the integration over a patch (ASMbase::integrate) visits the integration points of a stand-in patch; SuperLU solves the system exactly
#include "vc.h"
#include "patch.inc"
#include "GlbL2projector.h"
#include "GlobalIntegral.h"
#include "LocalIntegral.h"
#include "IntegrandBase.h"
#include "FiniteElement.h"
#include "Function.h"
#include "TimeDomain.h"
#include "ASMunstruct.h"
#include "SparseMatrix.h"
#include "IFEM.h"
#include "Profiler.h"
#include "solver.inc"
#include <iostream>

utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

namespace {

const int NPT = 2; // integration points per element

//! A patch whose integration points have given basis function values and weights
struct QuadPatch : public TestPatch
{
  std::vector< std::vector< std::vector<double> > > N; // [element][point][node]
  std::vector< std::vector<double> > w;
  double time = -1.0;
  int failAt = -1;
  Real2DMat dom;  // parameter domain
  IntVec    crn;  // corner nodes
  int nsdim = 1;

  QuadPatch(int nn, const IntMat& elms) : TestPatch(1,IntVec(nn,1),elms)
  {
    for (int n = 0; n < nn; n++) myMLGN[n] = n+1;
  }

  bool integrate(Integrand& I, GlobalIntegral& g, const TimeDomain& t) override
  {
    time = t.t;
    bool ok = true;
    for (size_t e = 0; e < MNPC.size() && ok; e++) {
      FiniteElement fe(MNPC[e].size());
      fe.iel = MLGE[e];
      LocalIntegral* A = I.getLocalIntegral(MNPC[e].size(),fe.iel,false);
      ok = I.initElement(MNPC[e],fe,Vec3(),NPT,*A);
      for (int q = 0; q < NPT && ok; q++) {
        fe.iGP = NPT*e+q;
        fe.N = N[e][q];
        fe.detJxW = w[e][q];
        ok = I.evalInt(*A,fe,t,Vec4(Vec3(e,q,0),t.t));
      }
      if (ok) ok = I.finalizeElement(*A,fe,t) && g.assemble(A,fe.iel);
      if (A) A->destruct();
      if ((int)e == failAt) ok = false;
    }
    return ok;
  }

  bool getParameterDomain(Real2DMat& u, IntVec* c) const override
  {
    u = dom;
    if (c) *c = crn;
    return !dom.empty();
  }
};

//! A function with prescribed values in the integration points
struct PointFunc : public FunctionBase
{
  const std::vector<double>& v; // [component+dim*(point+NPT*element)]
  mutable double at = -1.0;
  PointFunc(int d, const std::vector<double>& x) : v(x) { ncmp = d; }
  unsigned char getType() const override { return 1; }
  double getScalarValue(const Vec3& X) const override { return this->getValue(X).front(); }
  std::vector<double> getValue(const Vec3& X) const override
  {
    const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
    at = x4 ? x4->t : -1.0;
    int k = (int)X.x*NPT + (int)X.y;
    return std::vector<double>(v.begin()+ncmp*k,v.begin()+ncmp*(k+1));
  }
};

//! A problem with prescribed secondary solution
struct PointProblem : public IntegrandBase
{
  int nc;
  const std::vector<double>& v;
  int divergedAt = -1, failed = -1, inited = 0;
  IntVec nodes;
  PointProblem(int d, const std::vector<double>& x) : IntegrandBase(1), nc(d), v(x) {}
  size_t getNoFields(int f) const override { return f == 2 ? nc : 1; }
  LocalIntegral* getLocalIntegral(size_t, size_t, bool) const override { return nullptr; }
  bool evalSol(Vector& s, const FiniteElement& fe, const Vec3&, const std::vector<int>& MNPC) const override
  {
    const_cast<PointProblem*>(this)->nodes = MNPC;
    if ((int)fe.iGP == failed) return false;
    s.resize(nc);
    for (int c = 0; c < nc; c++) s[c] = v[nc*fe.iGP+c];
    return true;
  }
  bool diverged(size_t ip) const override { return (int)ip == divergedAt; }
};

//! Values of the basis functions and weights; the sum of the weighted squares is positive
void points(QuadPatch& p, bool symbolic)
{
  for (size_t e = 0; e < p.MNPC.size(); e++) {
    p.N.push_back({});
    p.w.push_back({});
    for (int q = 0; q < NPT; q++) {
      std::vector<double> N;
      for (size_t a = 0; a < p.MNPC[e].size(); a++)
        N.push_back(symbolic ? vc_real("N") : a == (size_t)q ? 0.75 : 0.25);
      p.N.back().push_back(N);
      p.w.back().push_back(symbolic ? vc_real("w") : 1.0+0.5*e+0.25*q);
    }
  }
}

//! The projected field leaves no residual: sum of w N_i (sum_j N_j x_j - f) is zero for each node
void projected(const QuadPatch& p, const Matrix& X, int row, int nn, const std::vector<double>& v, int nc, int c)
{
  for (int i = 0; i < nn; i++) {
    double r = 0.0;
    bool used = false;
    for (size_t e = 0; e < p.MNPC.size(); e++)
      for (size_t a = 0; a < p.MNPC[e].size(); a++)
        if (p.MNPC[e][a] == i)
          for (int q = 0; q < NPT; q++) {
            used = true;
            double u = 0.0;
            for (size_t b = 0; b < p.MNPC[e].size(); b++) u += p.N[e][q][b]*X(row,1+p.MNPC[e][b]);
            r += p.w[e][q]*p.N[e][q][a]*(u-v[nc*(NPT*e+q)+c]);
          }
    if (used) vc_near(r,0.0,1.0e-7,"the error of the projection is orthogonal to the basis");
    else vc_eq(X(row,i+1),0.0,"nodes without elements get no value");
  }
}

IntMat mesh(int which, int& nn)
{
  switch (which) {
  case 0: nn = 2; return {{0,1}};
  case 1: nn = 3; return {{0,1},{1,2}};
  case 2: nn = 3; return {{2,0}};        // node 1 is in no element
  default: nn = 3; return {{2,0},{1,2}};
  }
}

} // namespace

CONTRACT(H_project_function)
{
  int which = vc_pick("mesh",0,3), nc = vc_pick("components",1,2), nn;
  QuadPatch p(nn = 3,mesh(which,nn));
  p.nnod = nn;
  p.myMLGN.resize(nn);
  points(p,false);
  std::vector<double> v(nc*NPT*p.MNPC.size());
  vc_fill(v.data(),v.size(),"f");
  PointFunc f(nc,v);
  double t = vc_real("t");
  Matrix X;
  bool ok = p.L2projection(X,&f,t);
  vc_true(ok,"the projection succeeds");
  vc_eq(p.time,t,"time of the projection");
  vc_eq(f.at,t,"time at which the function is evaluated");
  vc_eqi(X.rows(),nc,"one row per component");
  vc_eqi(X.cols(),nn,"one column per node");
  for (int c = 0; c < nc; c++) projected(p,X,c+1,nn,v,nc,c);
}

//! The matrix and right-hand-side for arbitrary basis functions and weights
CONTRACT(H_project_arbitrary_basis)
{
  int nn, nc = 1;
  QuadPatch p(2,mesh(0,nn));
  points(p,true);
  std::vector<double> v(NPT);
  vc_fill(v.data(),v.size(),"f");
  double a = 0.0, b = 0.0, d = 0.0;
  for (int q = 0; q < NPT; q++) {
    a += p.w[0][q]*p.N[0][q][0]*p.N[0][q][0];
    b += p.w[0][q]*p.N[0][q][0]*p.N[0][q][1];
    d += p.w[0][q]*p.N[0][q][1]*p.N[0][q][1];
  }
  vc_assume(a > 0.01 && d > 0.01 && a*d - b*b > 0.01);
  PointFunc f(nc,v);
  Matrix X;
  vc_true(p.L2projection(X,&f),"the projection succeeds");
  projected(p,X,1,nn,v,nc,0);
}

CONTRACT(H_project_functions)
{
  int nf = vc_pick("functions",1,3), nn;
  QuadPatch p(3,mesh(1,nn));
  points(p,false);
  std::vector<int> nc;
  std::vector< std::vector<double> > v(nf);
  std::vector<FunctionBase*> f;
  std::vector<Matrix> X(nf);
  std::vector<Matrix*> pX;
  for (int k = 0; k < nf; k++) {
    nc.push_back(vc_pick("components",1,2));
    v[k].resize(nc[k]*NPT*p.MNPC.size());
    vc_fill(v[k].data(),v[k].size(),"f");
  }
  for (int k = 0; k < nf; k++) {
    f.push_back(new PointFunc(nc[k],v[k]));
    pX.push_back(&X[k]);
  }
  vc_true(p.L2projection(pX,f,0.0),"the projection succeeds");
  for (int k = 0; k < nf; k++) {
    vc_eqi(X[k].rows(),nc[k],"one row per component of each function");
    vc_eqi(X[k].cols(),nn,"one column per node");
    for (int c = 0; c < nc[k]; c++) projected(p,X[k],c+1,nn,v[k],nc[k],c);
  }
  pX.pop_back();
  vc_true(!p.L2projection(pX,f,0.0),"each function needs a field");
  for (FunctionBase* g : f) delete g;
}

CONTRACT(H_project_solution)
{
  int which = vc_pick("mesh",0,3), nc = vc_pick("components",1,2), nn;
  QuadPatch p(nn = 3,mesh(which,nn));
  p.nnod = nn;
  p.myMLGN.resize(nn);
  points(p,false);
  std::vector<double> v(nc*NPT*p.MNPC.size());
  vc_fill(v.data(),v.size(),"s");
  PointProblem prob(nc,v);
  prob.failed = vc_pick("failed",-1,1);
  prob.divergedAt = vc_pick("diverged",0,1) ? 1+prob.failed : -1;
  TimeDomain time;
  time.t = vc_real("t");
  Matrix X;
  bool ok = p.L2projection(X,&prob,time);
  vc_true(ok == (prob.failed < 0 || prob.divergedAt > 0),"failing points fail the projection unless they have diverged");
  vc_eq(p.time,time.t,"time of the projection");
  if (!ok) return;
  vc_true(prob.nodes == p.MNPC.back(),"the solution is evaluated with the nodes of the element");
  if (prob.failed >= 0) // a diverged point counts as zero
    for (int c = 0; c < nc; c++) v[nc*prob.failed+c] = 0.0;
  vc_eqi(X.rows(),nc,"one row per component");
  vc_eqi(X.cols(),nn,"one column per node");
  for (int c = 0; c < nc; c++) projected(p,X,c+1,nn,v,nc,c);
}

namespace {

//! A patch in a box of parameters, with coordinates that are a known function of them
struct BoxPatch : public TestPatch
{
  Real2DMat dom;
  IntVec crn;
  std::vector< std::vector<double> > K, F; // equation system of the projection
  const L2Integrand* asked = nullptr;
  bool continuous = false, fails = false;
  mutable Matrix solved;

  BoxPatch(int nd, int ns, int nn) : TestPatch(1,IntVec(nn,1)) { ndim = nd; nsd = ns; }

  static Vec3 place(const double* u, int nd)
  {
    Vec3 X(3.0,5.0,7.0);
    for (int d = 0; d < nd; d++) X[d] += (2.0+d)*u[d];
    return X;
  }
  int evalPoint(const double* xi, double* param, Vec3& X) const override
  {
    for (int d = 0; d < ndim; d++) {
      vc_true(xi[d] >= -1.0e-9 && xi[d] <= 1.0+1.0e-9,"normalized parameters are in [0,1]");
      param[d] = (1.0-xi[d])*dom[d][0] + xi[d]*dom[d][1];
    }
    X = place(param,ndim);
    return 0;
  }
  bool getParameterDomain(Real2DMat& u, IntVec* c) const override
  {
    u = dom;
    if (c) *c = crn;
    return !dom.empty();
  }
  bool assembleL2matrices(SystemMatrix& A, SystemVector& B, const L2Integrand& itg, bool cont) const override
  {
    const_cast<BoxPatch*>(this)->asked = &itg;
    const_cast<BoxPatch*>(this)->continuous = cont;
    SparseMatrix& M = static_cast<SparseMatrix&>(A);
    size_t n = K.size();
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) M(i+1,j+1) += K[i][j];
    Real* b = B.getPtr();
    vc_eqi(B.dim(),n*F.size(),"one right-hand-side per component");
    for (size_t c = 0; c < F.size(); c++) for (size_t i = 0; i < n; i++) b[c*n+i] += F[c][i];
    return !fails;
  }
  bool evalSolution(Matrix& s, const IntegrandBase& itg, const RealArray* gpar, bool) const override
  {
    s.resize(itg.getNoFields(2),gpar[0].size());
    for (size_t i = 0; i < gpar[0].size(); i++) for (size_t c = 0; c < s.rows(); c++) s(c+1,i+1) = 10.0*c + gpar[0][i];
    return !fails;
  }
};

//! A function of space and time
struct SpaceFunc : public FunctionBase
{
  SpaceFunc(int d) { ncmp = d; }
  unsigned char getType() const override { return 1; }
  static double val(const Vec3& X, double t, int c) { return X.x + 20.0*X.y + 300.0*X.z + (1.0+c)*t; }
  double getScalarValue(const Vec3& X) const override { return this->getValue(X).front(); }
  std::vector<double> getValue(const Vec3& X) const override
  {
    const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
    vc_true(x4 != nullptr,"the point has a time");
    std::vector<double> v;
    for (int c = 0; c < ncmp; c++) v.push_back(val(X,x4 ? x4->t : 0.0,c));
    return v;
  }
};

struct UnstructPatch : public BoxPatch, public ASMunstruct
{
  using BoxPatch::BoxPatch;
  bool refine(const LR::RefineData&, Vectors&) override { return false; }
  Vec3 getElementCenter(int) const override { return Vec3(); }
};

} // namespace

static void functionInPoints(BoxPatch& p, bool tensor)
{
  int nd = p.ndim, nc = vc_pick("components",1,2);
  RealArray par[3];
  for (int d = 0; d < nd; d++) {
    double a = vc_real("start"), l = vc_real_range("length",0.1,10.0);
    p.dom.push_back({a,a+l});
    int n = tensor ? vc_pick("points",1,2) : 2;
    for (int i = 0; i < n; i++) par[d].push_back(a + l*(0.25+0.5*i));
  }
  SpaceFunc f(nc);
  double t = vc_real("t");
  L2FuncIntegrand itg(p,f,t);
  vc_eqi(itg.dim(),nc,"number of components");
  vc_eq(itg.getTimeLevel(),t,"time");
  Matrix V;
  vc_true(itg.evaluate(V,par),"the function is evaluated");
  int np[3] = {1,1,1}, tot = 1;
  for (int d = 0; d < nd; d++) np[d] = par[d].size();
  tot = tensor ? np[0]*np[1]*np[2] : np[0];
  vc_eqi(V.rows(),nc,"one row per component");
  vc_eqi(V.cols(),tot,"one column per point");
  for (int ip = 0; ip < tot; ip++) {
    int i[3] = { ip%np[0], ip/np[0]%np[1], ip/(np[0]*np[1]) };
    double u[3] = {0,0,0};
    for (int d = 0; d < nd; d++) u[d] = par[d][tensor ? i[d] : ip];
    for (int c = 0; c < nc; c++)
      vc_near(V(c+1,ip+1),SpaceFunc::val(BoxPatch::place(u,nd),t,c),1.0e-6,"value of the function in the point with the given parameters");
  }
}

CONTRACT(H_function_in_points)
{
  int nd = vc_pick("ndim",1,3), ns = vc_pick("nsd",nd,3);
  BoxPatch p(nd,ns,2);
  functionInPoints(p,true);
}

CONTRACT(H_function_in_unstructured_points)
{
  int nd = vc_pick("ndim",1,3);
  UnstructPatch p(nd,nd,2);
  functionInPoints(p,false);
}

CONTRACT(H_solution_in_points)
{
  BoxPatch p(1,1,2);
  std::vector<double> none;
  PointProblem prob(vc_pick("components",1,2),none);
  L2ProbIntegrand itg(p,prob);
  vc_eqi(itg.dim(),prob.nc,"number of components");
  RealArray u(2);
  vc_fill(u.data(),2,"u");
  Matrix V;
  vc_true(itg.evaluate(V,&u),"the solution is evaluated");
  for (int i = 0; i < 2; i++) for (int c = 0; c < prob.nc; c++) vc_eq(V(c+1,i+1),10.0*c+u[i],"value in the given points");
}

CONTRACT(H_global_projection)
{
  int nn = vc_size("nodes",2,3), nc = vc_pick("components",1,2), solver = vc_pick("solver",0,1), ends = vc_pick("ends",0,2);
  BoxPatch p(1,1,nn);
  bool cont = vc_pick("continuous",0,1);
  p.fails = vc_pick("fails",0,1);
  GlbL2::MatrixType = solver ? LinAlg::UMFPACK : LinAlg::SPARSE;
  for (int i = 0; i < nn; i++) {
    p.K.push_back({});
    for (int j = 0; j < nn; j++) p.K.back().push_back(i == j ? 4.0+i : 1.0+0.5*i*j);
  }
  for (int c = 0; c < nc; c++) {
    p.F.push_back(std::vector<double>(nn));
    vc_fill(p.F.back().data(),nn,"f");
  }
  if (ends == 1) {
    p.dom = {{vc_real("u0"),0.0}};
    p.dom[0][1] = p.dom[0][0] + 2.0;
    p.crn = {nn,1};
  }
  SpaceFunc f(nc);
  double t = vc_real("t");
  L2FuncIntegrand itg(p,f,t);
  Matrix X(2,2);
  bool ok = p.globalL2projection(X,itg,cont,ends > 0);
  vc_true(ok == !p.fails,"failing assembly fails the projection");
  vc_true(p.asked == &itg && p.continuous == cont,"the integrand and kind of projection asked for");
  GlbL2::MatrixType = LinAlg::SPARSE;
  if (!ok) return;
  vc_eqi(X.rows(),nc,"one row per component");
  vc_eqi(X.cols(),nn,"one column per node");
  for (int c = 0; c < nc; c++) {
    std::vector<double> x(nn);
    for (int i = 0; i < nn; i++) x[i] = X(c+1,i+1);
    if (ends == 1) { // the end nodes have the values of the function itself, others are unaffected
      vc_near(x[nn-1],SpaceFunc::val(BoxPatch::place(&p.dom[0][0],1),t,c),1.0e-6,"value of the function at an end");
      vc_near(x[0],SpaceFunc::val(BoxPatch::place(&p.dom[0][1],1),t,c),1.0e-6,"value of the function at an end");
    }
    else
      for (int i = 0; i < nn; i++) {
        double r = -p.F[c][i];
        for (int j = 0; j < nn; j++) r += p.K[i][j]*x[j];
        vc_near(r,0.0,1.0e-7,"the projected values solve the assembled equations");
      }
  }
}
