// VC-TU: src/ASM/LagrangeField2D.C src/ASM/LagrangeField3D.C src/ASM/LagrangeFields2D.C src/ASM/LagrangeFields3D.C src/ASM/Lagrange.C src/ASM/ASMLagBase.C src/Utility/CoordinateMapping.C src/Utility/FieldFunctions.C src/ASM/ASMbase.C src/Utility/StringUtils.C src/Utility/LogStream.C src/ASM/DomainDecomposition.C src/Utility/Tensor.C src/Utility/Vec3Oper.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-INCLUDE: patch.inc
// VC-TIME: 150
// VC-ASSUME: the HDF5 file is a table of times and values (HDF5Reader replaced by a stand-in); the patch is a stand-in with explicitly given nodes and elements
#include "vc.h"
#include "patch.inc"
#include "LagrangeField2D.h"
#include "LagrangeField3D.h"
#include "LagrangeFields2D.h"
#include "LagrangeFields3D.h"
#include "ASMs2DLag.h"
#include "ASMs3DLag.h"
#include "ASMLagBase.h"
#include "FieldFunctions.h"
#include "HDF5Reader.h"
#include "ProcessAdm.h"
#include "IFEM.h"
#include <iostream>
#include "ASM2D.h"
#include "ASM3D.h"
#include "ItgPoint.h"
#include "Tensor.h"
#include <sstream>
#include <cmath>

// ---- Interpolated fields on a Lagrange patch ----------------------------------------------------------------------------------

//! A Lagrange patch of two elements in the first direction with given node numbers; only the part of its interface that fields use
class LagPatch : public TestPatch
{
public:
  int dim, ord;
  Matrix X;
  LagPatch(int d, int p, int nel, int nn, int nf, const IntMat& elms) : TestPatch(nf,IntVec(nn,1),elms), dim(d), ord(p), X(d,nn)
  {
    for (int n = 0; n < nn; n++) myMLGN[n] = n+1;
    for (int n = 1; n <= nn; n++) for (int k = 1; k <= d; k++) X(k,n) = vc_real("X");
  }
  bool getOrder(int& a, int& b, int& c) const override { a = ord; b = ord; c = dim > 2 ? ord : 0; return true; }
  void getNodalCoordinates(Matrix& x, bool) const override { x = X; }
};

//! Node numbers of two neighbouring elements, in an order that is not the trivial one
static IntMat elements(int dim, int& nn)
{
  if (dim == 2) { nn = 6; return {{5,2,0,3},{2,4,3,1}}; }
  nn = 12;
  return {{0,7,2,3,4,5,6,1},{7,8,3,9,5,10,1,11}};
}

//! Linear basis functions of the bi- or trilinear element
static double N(int dim, int a, const double* xi)
{
  double f = 1.0;
  for (int k = 0; k < dim; k++) f *= (a>>k & 1) ? 0.5*(1.0+xi[k]) : 0.5*(1.0-xi[k]);
  return f;
}

static double dN(int dim, int a, int d, const double* xi)
{
  double f = 1.0;
  for (int k = 0; k < dim; k++)
    if (k == d) f *= (a>>k & 1) ? 0.5 : -0.5;
    else f *= (a>>k & 1) ? 0.5*(1.0+xi[k]) : 0.5*(1.0-xi[k]);
  return f;
}

static ItgPoint point(int dim, int iel, double* xi)
{
  for (int k = 0; k < dim; k++) xi[k] = vc_real_range("xi",-1.0,1.0);
  ItgPoint x;
  x.iel = iel;
  x.xi = xi[0];
  x.eta = xi[1];
  if (dim > 2) x.zeta = xi[2];
  return x;
}

static Field* scalarField(const LagPatch& p, const RealArray& v, char cmp)
{
  if (p.dim == 2) return new LagrangeField2D(reinterpret_cast<const ASMs2DLag*>(&p),v,1,cmp);
  return new LagrangeField3D(reinterpret_cast<const ASMs3DLag*>(&p),v,1,cmp);
}

static Fields* vectorField(const LagPatch& p, const RealArray& v)
{
  if (p.dim == 2) return new LagrangeFields2D(reinterpret_cast<const ASMs2DLag*>(&p),v,1);
  return new LagrangeFields3D(reinterpret_cast<const ASMs3DLag*>(&p),v,1);
}

CONTRACT(H_scalar_field)
{
  int dim = vc_pick("dim",2,3), nn;
  IntMat elms = elements(dim,nn);
  int nf = vc_pick("nf",1,3);
  int cmp = vc_pick("cmp",0,nf); // 0: the values are of this field only
  LagPatch p(dim,2,2,nn,nf,elms);
  int surplus = vc_pick("surplus",-1,1); // too few, just enough or too many nodes in the values given
  int stride = nf > 1 && cmp > 0 ? nf : 1;
  RealArray v((nn+surplus)*stride);
  vc_fill(v.data(),v.size(),"v");
  Field* f = scalarField(p,v,cmp);
  auto&& nodal = [&](int n) { return n < nn+surplus ? v[n*stride + (stride > 1 ? cmp-1 : 0)] : 0.0; };
  for (int n = 0; n < nn; n++)
    vc_eq(f->valueNode(n+1),nodal(n),"nodal value of the component asked for");
  vc_eq(f->valueNode(0),0.0,"no node zero");
  vc_eq(f->valueNode(nn+1),0.0,"no node beyond the last");
  int iel = vc_pick("iel",0,3);
  double xi[3];
  ItgPoint x = point(dim,iel,xi);
  double u = 0.0;
  if (iel > 0 && iel < 3)
    for (size_t a = 0; a < elms[iel-1].size(); a++)
      u += N(dim,a,xi)*nodal(elms[iel-1][a]);
  vc_near(f->valueFE(x),u,1.0e-9,"value is the interpolation of the nodal values of the element");
  delete f;
}

CONTRACT(H_vector_field)
{
  int dim = vc_pick("dim",2,3), nn;
  IntMat elms = elements(dim,nn);
  int nf = vc_pick("nf",1,3);
  LagPatch p(dim,2,2,nn,nf,elms);
  int surplus = nf > 1 ? vc_pick("surplus",0,1) : 0;
  RealArray v(nn*nf+surplus);
  vc_fill(v.data(),v.size(),"v");
  Fields* f = vectorField(p,v);
  vc_eqi(f->getNoFields(),nf,"number of components");
  vc_eqi(f->getNoElm(),2,"number of elements");
  vc_eqi(f->getNoNodes(),nn,"number of nodes");
  Vector w;
  for (int n = 0; n < nn; n++) {
    vc_true(f->valueNode(n+1,w),"nodal values exist");
    vc_eqi(w.size(),nf,"nodal value of each component");
    for (int c = 0; c < nf; c++) vc_eq(w[c],v[n*nf+c],"nodal values");
  }
  vc_true(!f->valueNode(0,w) && !f->valueNode(nn+1,w),"nodes that do not exist have no values");
  int iel = vc_pick("iel",0,3);
  double xi[3];
  ItgPoint x = point(dim,iel,xi);
  bool ok = f->valueFE(x,w);
  vc_true(ok == (iel > 0 && iel < 3),"elements of the patch only");
  vc_eqi(w.size(),nf,"value of each component");
  for (int c = 0; c < nf; c++) {
    double u = 0.0;
    if (ok)
      for (size_t a = 0; a < elms[iel-1].size(); a++)
        u += N(dim,a,xi)*v[elms[iel-1][a]*nf+c];
    vc_near(w[c],u,1.0e-9,"value is the interpolation of the nodal values of the element");
  }
  delete f;
}

//! The chain rule ties the gradient to the derivatives in the element directions
CONTRACT(H_field_gradient)
{
  int dim = 2, nn;
  IntMat elms = elements(dim,nn);
  int nf = vc_pick("nf",1,2);
  LagPatch p(dim,2,2,nn,nf,elms);
  RealArray v(nn*nf);
  vc_fill(v.data(),v.size(),"v");
  int iel = vc_pick("iel",1,3);
  double xi[3];
  ItgPoint x = point(dim,iel,xi);
  double J[2][2] = {{0,0},{0,0}}; // dX_i/dxi_k
  if (iel < 3)
    for (int i = 0; i < 2; i++)
      for (int k = 0; k < 2; k++)
        for (size_t a = 0; a < 4; a++) J[i][k] += dN(2,a,k,xi)*p.X(i+1,1+elms[iel-1][a]);
  double det = J[0][0]*J[1][1] - J[0][1]*J[1][0];
  vc_assume(iel > 2 || det > 1.0e-3);
  Field*  f1 = scalarField(p,v,1);
  Fields* fn = vectorField(p,v);
  Vector g;
  Matrix G;
  bool ok1 = f1->gradFE(x,g), okn = fn->gradFE(x,G);
  vc_true(ok1 == (iel < 3) && okn == (iel < 3),"elements of the patch only");
  if (ok1 && okn) {
    vc_eqi(g.size(),2,"size of the gradient");
    vc_eqi(G.rows(),nf,"one row per component");
    vc_eqi(G.cols(),2,"one column per direction");
    for (int c = 0; c < nf; c++) {
      double du[2] = {0,0};
      for (int k = 0; k < 2; k++)
        for (size_t a = 0; a < 4; a++) du[k] += dN(2,a,k,xi)*v[elms[iel-1][a]*nf+c];
      double gx = (du[0]*J[1][1] - du[1]*J[1][0])/det, gy = (du[1]*J[0][0] - du[0]*J[0][1])/det;
      vc_near(G(c+1,1),gx,1.0e-6,"gradient of a component");
      vc_near(G(c+1,2),gy,1.0e-6,"gradient of a component");
      if (c == 0) {
        vc_near(g[0],gx,1.0e-6,"gradient of a scalar field");
        vc_near(g[1],gy,1.0e-6,"gradient of a scalar field");
      }
    }
  }
  delete f1;
  delete fn;
}

CONTRACT(H_field_gradient_3D)
{
  int dim = 3, nn;
  IntMat elms = elements(dim,nn);
  LagPatch p(dim,2,2,nn,1,elms);
  // an affinely mapped element with mutually orthogonal edges, at different lengths
  int iel = vc_pick("iel",1,2);
  double h[3];
  for (int k = 0; k < 3; k++) h[k] = 1.0 + k;
  double X0 = vc_real("X0");
  for (size_t a = 0; a < 8; a++)
    for (int k = 0; k < 3; k++)
      p.X(k+1,1+elms[iel-1][a]) = X0 + ((a>>k & 1) ? h[k] : 0.0);
  RealArray v(nn);
  vc_fill(v.data(),v.size(),"v");
  double xi[3];
  ItgPoint x = point(dim,iel,xi);
  Field*  f1 = scalarField(p,v,1);
  Fields* fn = vectorField(p,v);
  Vector g;
  Matrix G;
  vc_true(f1->gradFE(x,g) && fn->gradFE(x,G),"gradients exist");
  vc_eqi(g.size(),3,"size of the gradient");
  vc_eqi(G.cols(),3,"one column per direction");
  for (int k = 0; k < 3; k++) {
    double du = 0.0;
    for (size_t a = 0; a < 8; a++) du += dN(3,a,k,xi)*v[elms[iel-1][a]];
    vc_near(g[k],du*2.0/h[k],1.0e-6,"gradient of a scalar field");
    vc_near(G(1,k+1),du*2.0/h[k],1.0e-6,"gradient of a component");
  }
  delete f1;
  delete fn;
}

// ---- Nodal coordinates of Lagrange patches ------------------------------------------------------------------------------------

struct LagBase : public ASMLagBase { LagBase() {} LagBase(const LagBase& p, bool c) : ASMLagBase(p,c) {} };

CONTRACT(H_lagrange_nodes)
{
  int n = vc_size("n",1,3), nsd = vc_pick("nsd",1,3);
  LagBase p;
  std::vector<Vec3> X;
  for (int i = 0; i < n; i++) X.push_back(Vec3(vc_real("x"),vc_real("y"),vc_real("z")));
  p.myCoord = X;
  int wrong = vc_pick("wrong",-1,1);
  Vector d(n*nsd+wrong);
  vc_fill(d.ptr(),d.size(),"d");
  bool ok = p.updateCoords(d,nsd);
  vc_true(ok == (wrong == 0),"displacements of all nodes are needed");
  Vec3 O(vc_real("o"),vc_real("o"),vc_real("o"));
  p.updateOrigin(O);
  vc_eqi(p.coord.size(),n,"number of nodes");
  for (int i = 0; i < n; i++)
    for (int k = 0; k < 3; k++)
      vc_eq(p.coord[i][k],X[i][k] + (ok && k < nsd ? d[i*nsd+k] : 0.0) + O[k],"updated coordinates");
  Vec3 C = p.getGeometricCenter({0,n-1});
  for (int k = 0; k < 3; k++) vc_near(C[k],0.5*(p.coord[0][k]+p.coord[n-1][k]),1.0e-9,"centre of the nodes of an element");

  LagBase cp(p,true), no(p,false);
  vc_eqi(cp.coord.size(),n,"the copy has the nodes");
  vc_eqi(no.coord.size(),0,"no nodes unless they are copied");
  for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) vc_eq(cp.coord[i][k],p.coord[i][k],"coordinates of the copy");
}

CONTRACT(H_nodal_field)
{
  int n = vc_size("n",1,3), extra = vc_pick("extra",-1,1), nc = vc_pick("nc",1,3), odd = vc_pick("odd",0,1);
  LagBase p;
  p.myCoord.resize(n);
  int nno = n+extra;
  if (nno < 1) return;
  Vector s(nno*nc + (nno > 1 ? odd : 0));
  vc_fill(s.ptr(),s.size(),"s");
  Matrix F(1,1);
  bool ok = p.nodalField(F,s,nno);
  vc_true(ok == (extra >= 0 && (odd == 0 || nno < 2)),"the solution has the same number of values in each node");
  if (ok) {
    vc_eqi(F.rows(),nc,"components");
    vc_eqi(F.cols(),n,"one column per node of the patch");
    for (int i = 0; i < n; i++) for (int c = 0; c < nc; c++) vc_eq(F(c+1,i+1),s[i*nc+c],"value of a node");
  }
}

// ---- Functions given by fields ------------------------------------------------------------------------------------------------

//! A field with prescribed results that remembers where it was evaluated
struct KnownField : public Field
{
  double val;
  int& alive;
  KnownField(double v, int& a) : val(v), alive(a) { ++alive; }
  virtual ~KnownField() { --alive; }
  double valueNode(size_t n) const override { return 100.0*val + n; }
  double valueFE(const ItgPoint&) const override { return 0.0; }
  double valueCoor(const Vec4& x) const override { return val + 2.0*x.x; }
  bool gradFE(const ItgPoint& x, Vector& g) const override { g.resize(2); g[0] = val + x.u; g[1] = 3.0*val - x.v; return true; }
  bool hessianFE(const ItgPoint& x, Matrix& H) const override
  { H.resize(2,2); H(1,1) = val + x.u; H(2,1) = H(1,2) = val*x.v; H(2,2) = val - 1.0; return true; }
};

struct KnownFields : public Fields
{
  double val;
  int& alive;
  KnownFields(double v, int& a) : val(v), alive(a) { ++alive; nf = 2; }
  virtual ~KnownFields() { --alive; }
  bool valueNode(size_t n, Vector& v) const override { v.resize(2); v[0] = 100.0*val + n; v[1] = val; return true; }
  bool valueFE(const ItgPoint&, Vector&) const override { return false; }
  bool valueCoor(const Vec4& x, Vector& v) const override { v.resize(2); v[0] = val + 2.0*x.x; v[1] = val - x.y; return true; }
  bool gradFE(const ItgPoint& x, Matrix& g) const override
  { g.resize(2,2); g(1,1) = val; g(1,2) = x.u; g(2,1) = 2.0*val; g(2,2) = x.v; return true; }
  bool hessianFE(const ItgPoint& x, Matrix3D& H) const override
  { H.resize(2,2,2); for (int i = 1; i < 3; i++) for (int j = 1; j < 3; j++) for (int k = 1; k < 3; k++) H(i,j,k) = val*(4*i+2*j+k); return true; }
};

CONTRACT(H_patch_functions)
{
  int np = vc_size("patches",1,3), alive = 0;
  std::vector<double> val(np);
  vc_fill(val.data(),np,"val");
  int pick = vc_pick("patch",0,np); // the last one does not exist
  int before = vc_pick("before",0,np-1);
  int how = vc_pick("how",0,2);     // plain point, point in space-time, nodal point
  double uv[3] = { vc_real("u"), vc_real("v"), 0.0 };
  Vec3 X3(vc_real("x"),vc_real("y"),0.0);
  Vec4 X4(X3,vc_real("t"),uv);
  if (how == 2) X4.idx = 7;
  const Vec3& X = how == 0 ? X3 : X4;
  {
    std::vector<Field*> fields;
    std::vector<Fields*> vfields;
    for (int i = 0; i < np; i++) {
      fields.push_back(new KnownField(val[i],alive));
      vfields.push_back(new KnownFields(val[i],alive));
    }
    FieldFunction f(fields);
    VecFieldFunction g(vfields);
    vc_true(f.initPatch(before) && g.initPatch(before),"patches with a field");
    vc_true(f.initPatch(pick) == (pick < np) && g.initPatch(pick) == (pick < np),"only patches with a field");
    double w = val[pick < np ? pick : before];
    vc_eq(f(X),how == 2 ? 100.0*w+7 : w+2.0*X.x,"value of the field of the current patch");
    Vec3 G = g(X);
    vc_eq(G.x,how == 2 ? 100.0*w+7 : w+2.0*X.x,"value of the field of the current patch");
    vc_eq(G.y,how == 2 ? w : w-X.y,"value of the field of the current patch");
    vc_eq(G.z,0.0,"no third component");
    vc_eqi(g.dim(),2,"number of components");
    Vec3 D = f.gradient(X);
    vc_eq(D.x,how == 0 ? 0.0 : w+uv[0],"gradient of the field");
    vc_eq(D.y,how == 0 ? 0.0 : 3.0*w-uv[1],"gradient of the field");
    if (how > 0) {
      SymmTensor H = f.hessian(X);
      vc_eqi(H.dim(),2,"dimension of the second derivatives");
      vc_eq(H(1,1),w+uv[0],"second derivative of the field");
      vc_eq(H(1,2),w*uv[1],"second derivative of the field");
      vc_eq(H(2,2),w-1.0,"second derivative of the field");
      Tensor T = g.gradient(X);
      vc_eq(T(1,1),w,"gradient of a vector field");
      vc_eq(T(1,2),uv[0],"gradient of a vector field");
      vc_eq(T(2,1),2.0*w,"gradient of a vector field");
      vc_eq(T(2,2),uv[1],"gradient of a vector field");
    }
  }
  vc_eqi(alive,0,"the fields are deleted with the functions");
}

// What the factories of fields are asked for; the fields themselves have been dealt with above
namespace {
  struct Created { const ASMbase* pch; RealArray v; int basis, cmp; };
  std::vector<Created> created;
  int alive = 0;

  //! A field that gives the values it was made of, one per node
  struct ListField : public Field
  {
    RealArray v;
    explicit ListField(const RealArray& x) : v(x) { ++alive; }
    virtual ~ListField() { --alive; }
    double valueNode(size_t n) const override { return n > 0 && n <= v.size() ? v[n-1] : 0.0; }
    double valueFE(const ItgPoint&) const override { return 0.0; }
    double valueCoor(const Vec4&) const override { return v.empty() ? 0.0 : v.front(); }
    bool gradFE(const ItgPoint&, Vector&) const override { return false; }
  };

  struct ListFields : public Fields
  {
    RealArray v;
    ListFields(const RealArray& x, int n) : v(x) { ++alive; nf = n; }
    virtual ~ListFields() { --alive; }
    bool valueNode(size_t n, Vector& u) const override { u.resize(nf); for (int i = 0; i < nf; i++) u[i] = v[(n-1)*nf+i]; return true; }
    bool valueFE(const ItgPoint&, Vector&) const override { return false; }
    bool valueCoor(const Vec4&, Vector& u) const override { return this->valueNode(1,u); }
    bool gradFE(const ItgPoint&, Matrix&) const override { return false; }
  };
}

Field* Field::create(const ASMbase* pch, const RealArray& v, char basis, char cmp, const char*)
{
  created.push_back({pch,v,basis,cmp});
  return new ListField(v);
}

Fields* Fields::create(const ASMbase* pch, const RealArray& v, char basis, int nf, const char*)
{
  created.push_back({pch,v,basis,nf});
  return new ListFields(v,nf);
}

CONTRACT(H_stream_function)
{
  created.clear();
  alive = 0;
  int np = vc_size("patches",1,3), pick = vc_pick("patch",0,np);
  std::vector<TestPatch*> pch;
  std::vector<ASMbase*> patches;
  std::string os;
  static const char* text[6] = { "0.5", "10.5", "11.5", "20.5", "21.5", "22.5" };
  std::vector<RealArray> val(np);
  for (int p = 0; p < np; p++) {
    pch.push_back(new TestPatch(2,IntVec(1+p,1)));
    patches.push_back(pch.back());
    for (int n = 0; n <= p; n++) {
      val[p].push_back(10.0*p+n+0.5);
      os += std::string(text[p*(p+1)/2+n]) + (n%2 ? "\n" : " ");
    }
  }
  std::istringstream is(os);
  {
    FieldFuncStream f(patches,is);
    vc_eqi(created.size(),np,"one field per patch");
    for (int p = 0; p < np; p++) {
      vc_true(created[p].pch == patches[p],"the field of each patch");
      vc_eqi(created[p].cmp,0,"the values are of one field only");
      vc_eqi(created[p].basis,1,"the values are those of the first basis");
      vc_eqi(created[p].v.size(),p+1,"one value per node");
      for (int n = 0; n <= p; n++) vc_eq(created[p].v[n],val[p][n],"the values of the patch come in the order they are read");
    }
    vc_true(f.initPatch(pick) == (pick < np),"only patches with a field");
    int cur = pick < np ? pick : 0;
    Vec4 X(Vec3(1,2,3),0.0);
    vc_eq(f(X),val[cur].front(),"value in the current patch");
    X.idx = 1+cur;
    vc_eq(f(X),val[cur].back(),"value in a node of the current patch");
  }
  vc_eqi(alive,0,"the fields are deleted with the function");
  for (TestPatch* p : pch) delete p;
}

// ---- Functions given by fields of several time levels in a file ---------------------------------------------------------------

namespace {
  std::vector<double> levelTime;   // times of the levels in the file
  std::vector<RealArray> stored;   // [component+nComp*(level*patches+patch)] nodal values
  int filePatches = 1, nComp = 1, basisLevel = 0; // the basis is in one of the levels
  std::vector<std::string> compNames;
}

HDF5Base::HDF5Base(const std::string&, const ProcessAdm&) {}
void HDF5Base::closeFile() {}
HDF5Reader::HDF5Reader(const std::string& n, const ProcessAdm& a) : HDF5Base(n,a) {}
utl::LogStream IFEM::cout(std::cout);
ProcessAdm::ProcessAdm() : cout(std::cout) {}
ProcessAdm::~ProcessAdm() {}

static int levelOf(const std::string& path, std::string& rest)
{
  size_t i = path.find('/');
  rest = path.substr(i+1);
  if (path[0] == '-') return -1;
  int l = 0;
  for (size_t k = 0; k < i; k++) l = 10*l + (path[k]-'0');
  return l < (int)levelTime.size() ? l : -1;
}

bool HDF5Reader::readDouble(const std::string& path, double& out)
{
  std::string rest;
  int l = levelOf(path,rest);
  vc_true(rest == "timeinfo/SIMbase-1","only times are single numbers");
  if (l < 0) return false;
  out = levelTime[l];
  return true;
}

int HDF5Reader::getFieldSize(const std::string& path)
{
  std::string rest;
  int l = levelOf(path,rest);
  if (l < 0) return 0;
  if (rest == "B-1/basis") return l == basisLevel ? filePatches : 0;
  if (rest == "B-1/fields/"+compNames.front()) return filePatches;
  vc_true(false,"the file has one basis and its fields only");
  return 0;
}

bool HDF5Reader::readString(const std::string& path, std::string& out)
{
  std::string rest;
  vc_eqi(levelOf(path,rest),basisLevel,"the basis is in one level only");
  vc_true(rest.substr(0,10) == "B-1/basis/","basis of a patch");
  out = "200 1 0 0 patch ";
  out += rest.substr(10);
  return true;
}

bool HDF5Reader::readVector(const std::string& path, std::vector<double>& v)
{
  std::string rest;
  int l = levelOf(path,rest);
  for (int c = 0; c < nComp; c++)
    for (int p = 0; p < filePatches; p++)
      if (l >= 0 && rest == "B-1/fields/" + compNames[c] + (p == 0 ? "/1" : "/2")) {
        v = stored[c+nComp*(l*filePatches+p)];
        return true;
      }
  vc_true(false,"values of a field in a patch");
  return false;
}

namespace {
  int nCreated = 0;
  //! A patch read from the file
  struct FilePatch : public TestPatch
  {
    int which = 0;
    FilePatch(int nf) : TestPatch(nf,IntVec(2,1)) { ndim = nsd = 2; ++nCreated; }
    virtual ~FilePatch() { --nCreated; }
    bool read(std::istream& is) override
    {
      std::string s;
      for (int i = 0; i < 5; i++) is >> s;
      is >> which;
      return true;
    }
  };
}

ASMbase* ASM2D::create(ASM::Discretization d, unsigned char nd, const CharVec& nf, bool)
{
  vc_true(d == ASM::Spline && nd == 2,"a two-dimensional spline patch");
  return new FilePatch(nf.front());
}

ASMbase* ASM2D::create(ASM::Discretization d, unsigned char nf) { return ASM2D::create(d,2,CharVec(1,nf),false); }

static void fillFile(int nl, int np, int nc, int len = 2)
{
  created.clear();
  alive = nCreated = 0;
  filePatches = np;
  nComp = nc;
  basisLevel = 0;
  compNames = {"ux","uy"};
  levelTime.clear();
  stored.clear();
  for (int l = 0; l < nl; l++) levelTime.push_back(vc_real("time"));
  for (int l = 1; l < nl; l++) vc_assume(levelTime[l-1] + 1.0e-3 < levelTime[l]);
  for (int l = 0; l < nl; l++)
    for (int p = 0; p < np; p++)
      for (int c = 0; c < nc; c++) {
        RealArray v(len);
        for (int n = 0; n < len; n++) v[n] = vc_real("value");
        stored.push_back(v);
      }
}

CONTRACT(H_level_search)
{
  int nl = vc_size("levels",1,3), fixed = vc_pick("fixed",0,nl), mode = vc_pick("first level",0,1);
  fillFile(nl,1,1);
  basisLevel = fixed ? fixed-1 : mode*(nl-1);
  {
    int level = fixed ? FieldFuncBase::FIXED_LEVEL | (fixed-1) : mode*(nl-1);
    FieldFunction f("file","B-1","ux",level);
    vc_eqi(created.size(),1,"the field of the level asked for is read");
    for (int n = 0; n < 2; n++) vc_eq(created[0].v[n],stored[fixed ? fixed-1 : level][n],"values of the level asked for");
    for (int step = 0; step < 2; step++) { // any times, in any order
      double t = vc_real("t");
      Vec4 X(Vec3(),t,2);
      double v = f(X);
      if (fixed)
        vc_eq(v,stored[fixed-1][1],"the fixed level is used at all times");
      else {
        bool ok = false;
        for (int l = 0; l < nl; l++) {
          bool near = true;
          for (int k = 0; k < nl; k++) near &= std::fabs(levelTime[l]-t) <= std::fabs(levelTime[k]-t);
          ok |= near && v == stored[l][1];
        }
        vc_true(ok,"value of the level closest in time");
      }
      vc_eqi(alive,1,"fields of former levels are deleted");
    }
  }
  vc_eqi(alive,0,"the fields are deleted with the function");
  vc_eqi(nCreated,0,"the patches are deleted with the function");
}

CONTRACT(H_file_fields)
{
  int nl = vc_size("levels",1,2), np = vc_size("patches",1,2), nc = vc_pick("components",1,2), pick = vc_pick("patch",0,np), at = vc_pick("at",0,nl-1);
  int nf = 2, each = nf/nc; // a single name is that of a field with all its components
  fillFile(nl,np,nc,2*each);
  {
    VecFieldFunction f("file","B-1",nc > 1 ? "ux|uy" : "ux");
    vc_true(f.initPatch(pick) == (pick < np),"only patches with a field");
    int cur = pick < np ? pick : 0;
    Vec4 X(Vec3(),levelTime[at],2);
    Vec3 v = f(X);
    vc_eqi(alive,np,"one field per patch");
    vc_eqi(nCreated,np,"patches are read once");
    for (size_t k = created.size()-np; k < created.size(); k++) {
      int p = k-(created.size()-np);
      const FilePatch* pch = static_cast<const FilePatch*>(created[k].pch);
      vc_eqi(pch->which,p+1,"the patches come in their order in the file");
      vc_eqi(created[k].basis,1,"the only basis");
      vc_eqi(created[k].v.size(),4,"values of all nodes and components");
      vc_eqi(created[k].cmp,nf,"number of components");
      for (int n = 0; n < 2; n++)
        for (int c = 0; c < nf; c++)
          vc_eq(created[k].v[n*nf+c],nc > 1 ? stored[c+nc*(at*np+p)][n] : stored[at*np+p][n*nf+c],"components of a node follow each other");
    }
    for (int c = 0; c < nf; c++)
      vc_eq(v[c],nc > 1 ? stored[c+nc*(at*np+cur)][1] : stored[at*np+cur][nf+c],"value of the field of the current patch at this time");
  }
  vc_eqi(alive,0,"the fields are deleted with the function");
  vc_eqi(nCreated,0,"the patches are deleted with the function");
}
