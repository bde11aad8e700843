// VC-TU: src/Utility/TractionField.C src/Utility/TensorFunction.C src/Utility/Functions.C src/SIM/FunctionSum.C src/SIM/NodeVecFunc.C src/Utility/IFEM_math.C src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/SIM/SIMbase.C src/SIM/SIMinput.C src/SIM/SIMoutput.C src/SIM/SIMgeneric.C src/SIM/SIMdependency.C src/Utility/LogStream.C src/LinAlg/ProcessAdm.C src/SIM/ModelGenerator.C src/LinAlg/LinAlgInit.C src/ASM/ASMbase.C src/ASM/DomainDecomposition.C src/Utility/MPC.C src/LinAlg/MatVec.C src/Utility/Utilities.C src/Utility/Tensor.C src/Utility/Vec3Oper.C
// VC-INCLUDE: patch.inc
// VC-FLAGS: -UHAS_ISTL -UHAS_HDF5
// VC-TIME: 150
#include "vc.h"
#include "patch.inc"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "FunctionSum.h"
#include "NodeVecFunc.h"
#include "TractionField.h"
#include "TensorFunction.h"
#include "Functions.h"
#include "IFEM_math.h"
#include "Vec3Oper.h"
#include "Tensor.h"
#include "IFEM.h"
#include "Profiler.h"
#include <iostream>
#include <cmath>

SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;

namespace {

//! Functions with arbitrary values in the evaluation point
class Func1 : public RealFunc
{
public:
  double v, d;
  bool in, affected;
  int* freed;
  mutable Vec3 at;
  explicit Func1(int* f = nullptr) : v(vc_real("v")), d(vc_real("dv")), in(false), affected(false), freed(f) {}
  ~Func1() { if (freed) ++*freed; }
  double evaluate(const Vec3& X) const override { at = X; return v; }
  double deriv(const Vec3&, int dir) const override { return dir == 4 ? d : -1.0; }
  bool inDomain(const Vec3&) const override { return in; }
  bool initPatch(size_t) override { return affected; }
  bool isZero() const override { return v == 0.0; }
};

class Func3 : public VecFunc
{
public:
  double v[3];
  explicit Func3(int n) : VecFunc(n) { vc_fill(v,3,"v3"); }
  Vec3 evaluate(const Vec3&) const override { return Vec3(v[0],v[1],v[2]); }
  double getScalarValue(const Vec3&) const override { return v[0]+v[1]; }
};

class FuncT : public TensorFunc
{
public:
  Tensor s, ds;
  explicit FuncT(int n) : TensorFunc(n), s(n), ds(n)
  {
    for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) { s(i,j) = vc_real("s"); ds(i,j) = vc_real("ds"); }
  }
  Tensor evaluate(const Vec3&) const override { return s; }
  Tensor deriv(const Vec3&, int d) const override { return d == 4 ? ds : Tensor(s.dim()); }
};

class FuncS : public STensorFunc
{
public:
  SymmTensor s, ds;
  explicit FuncS(int n) : STensorFunc(n), s(n), ds(n)
  {
    for (int i = 1; i <= n; i++) for (int j = 1; j <= i; j++) { s(i,j) = vc_real("s"); ds(i,j) = vc_real("ds"); }
  }
  SymmTensor evaluate(const Vec3&) const override { return s; }
  SymmTensor deriv(const Vec3&, int d) const override { return d == 4 ? ds : SymmTensor(s.dim()); }
};

class TimeFunc : public ScalarFunc
{
public:
  double v, *at;
  TimeFunc(double x, double* t) : v(x), at(t) {}
  double evaluate(const double& t) const override { *at = t; return v; }
};

class Direction : public utl::Function<Real,Vec3>
{
public:
  Vec3 v;
  double* at;
  Direction(const Vec3& x, double* t) : utl::Function<Real,Vec3>(), v(x), at(t) {}
  Vec3 evaluate(const double& t) const override { *at = t; return v; }
};

//! A patch with coordinates
class CoordPatch : public TestPatch
{
public:
  std::vector<Vec3> xyz;
  CoordPatch(int nf, const IntVec& id, const IntMat& e) : TestPatch(nf,id,e), xyz(id.size()) {}
  Vec3 getCoord(size_t n) const override { return xyz[n-1]; }
};

class Owned : public RealFuncSum { public: Owned() {} };

class Model : public SIMdummy<SIMgeneric>
{
public:
  Model(int nf) { nf1(nf); }
  ~Model() { myModel.clear(); }
  void nf1(int n) { nf = {static_cast<unsigned char>(n)}; }
  std::vector<unsigned char> nf;
  using SIMdummy<SIMgeneric>::myModel;
};

Vec3 somePoint() { return Vec3(vc_real("x"),vc_real("y"),vc_real("z")); }

}

// A sum of functions is the weighted sum of their values, or the largest of them when the weights are negative
CONTRACT(H_function_sum)
{
  int n = vc_size("functions",1,3);
  bool max = vc_bool("maximum");
  Vec3 X = somePoint();
  std::vector<Func1> f(n);
  std::vector<double> w(n);
  FunctionSum* sum = nullptr;
  int type = vc_pick("inside",0,n);
  for (int i = 0; i < n; i++)
  {
    if (max) w[i] = -1.0;
    else w[i] = vc_real_range("w",0.125,10.0);
    f[i].in = i+1 == type;
    f[i].affected = i+1 == type;
    if (i == 0) sum = new FunctionSum(&f[i],w[i]);
    else vc_true(sum->add(&f[i],w[i]),"functions of equal dimension are added");
  }
  double e = 0.0;
  for (int i = 0; i < n; i++)
    if (!max) e += w[i]*f[i].v;
    else if (i == 0 || f[i].v > e) e = f[i].v;
  vc_eq(sum->getScalarValue(X),e,"scalar value of the sum");
  std::vector<double> v = sum->getValue(X);
  vc_eqi(v.size(),1,"components of the sum");
  vc_eq(v[0],e,"value of the sum");
  vc_eqi(sum->getType(),1,"type of the sum is that of its functions");
  vc_true(sum->inDomain(X) == (type > 0),"the domain is that of any of the functions");
  vc_true(sum->initPatch(1) == (type > 0),"a patch is affected if it is for any of the functions");
  for (int i = 0; i < n; i++)
    for (int k = 0; k < 3; k++) vc_eq(f[i].at[k],X[k],"functions are evaluated in the point");
  Func3 vec(2);
  vc_true(!sum->add(&vec,1.0),"functions of another dimension are refused");
  vc_eq(sum->getScalarValue(X),e,"refused functions change nothing");
  delete sum;
}

CONTRACT(H_vector_function_sum)
{
  int n = vc_size("functions",1,3), nc = vc_size("components",1,3);
  bool max = vc_bool("maximum");
  Vec3 X = somePoint();
  std::vector<Func3> f;
  for (int i = 0; i < n; i++) f.push_back(Func3(nc));
  std::vector<double> w(n);
  FunctionSum sum(&f[0],w[0] = max ? -1.0 : 2.0);
  for (int i = 1; i < n; i++) sum.add(&f[i],w[i] = max ? -1.0 : 0.5*i);
  std::vector<double> v = sum.getValue(X);
  vc_eqi(v.size(),nc,"components of the vector sum");
  for (int k = 0; k < nc; k++)
  {
    double e = 0.0;
    for (int i = 0; i < n; i++)
      if (!max) e += w[i]*f[i].v[k];
      else if (i == 0 || f[i].v[k] > e) e = f[i].v[k];
    vc_eq(v[k],e,"vector value of the sum");
  }
  vc_eqi(sum.getType(),2,"type of a sum of vector functions");
  if (nc == 1)
  {
    Func1 g;
    sum.add(&g);
    vc_eqi(sum.getType(),0,"a sum of functions of different types has no type");
  }
}

CONTRACT(H_owned_function_sum)
{
  int freed = 0;
  Vec3 X = somePoint();
  double e = 0.0;
  {
    Owned sum;
    vc_eqi(static_cast<FunctionSum&>(sum).getType(),0,"an empty sum has no type");
    vc_true(!sum.inDomain(X) && !sum.initPatch(1),"an empty sum is nowhere");
    int n = vc_size("functions",0,2);
    for (int i = 0; i < n; i++)
    {
      Func1* f = new Func1(&freed);
      e += 0.5*(i+1)*f->v;
      sum.add(f,0.5*(i+1));
    }
    RealFunc& rf = sum;
    vc_eq(rf(X),e,"value of the function");
    vc_eq(rf.getScalarValue(X),e,"scalar value of the function");
    freed -= n;
  }
  vc_eqi(freed,0,"the functions are freed once");
}

// A traction field is the product of the stresses and the normal vector, and so is its rate of change
CONTRACT(H_traction)
{
  int n = vc_size("dimension",2,3);
  bool symm = vc_bool("symmetric");
  Vec4 X(somePoint(),vc_real("t"));
  Vec3 nv = somePoint();
  if (n == 2) nv.z = 0.0;
  Vec3 t, dt;
  double s[3][3], ds[3][3];
  if (symm)
  {
    FuncS f(n);
    TractionField tf(f);
    const TractionFunc& trac = tf;
    t = trac(X,nv); dt = trac.timeDerivative(X,nv);
    vc_true(!trac.isNormalPressure() && !trac.isZero(),"a stress field is not a normal pressure");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { s[i][j] = f.s(i+1,j+1); ds[i][j] = f.ds(i+1,j+1); }
  }
  else
  {
    FuncT f(n);
    TractionField tf(f);
    const TractionFunc& trac = tf;
    t = trac(X,nv); dt = trac.timeDerivative(X,nv);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { s[i][j] = f.s(i+1,j+1); ds[i][j] = f.ds(i+1,j+1); }
  }
  for (int i = 0; i < 3; i++)
  {
    double e = 0.0, de = 0.0;
    if (i < n) for (int j = 0; j < n; j++) { e += s[i][j]*nv[j]; de += ds[i][j]*nv[j]; }
    vc_eq(t[i],e,"traction is stress times normal");
    vc_eq(dt[i],de,"rate of the traction is rate of the stress times normal");
  }
}

// A pressure acts along the normal, a global direction, the normal by its global component, or the direction of a function
CONTRACT(H_pressure)
{
  int kind = vc_pick("kind",0,7); // 0: normal, 1-3 global direction, 4-6 normal part of global direction, 7 function
  Vec4 X(somePoint(),vc_real("t"));
  Vec3 nv = somePoint();
  Func1* p = new Func1();
  double v = p->v, d = p->d;
  double e[3], de[3];
  PressureField* pf;
  if (kind < 7)
  {
    pf = new PressureField(p,kind);
    for (int i = 0; i < 3; i++)
      if (kind == 0) { e[i] = v*nv[i]; de[i] = d*nv[i]; }
      else if (kind < 4) { e[i] = i == kind-1 ? v : 0.0; de[i] = i == kind-1 ? d : 0.0; }
      else { e[i] = v*nv[kind-4]*nv[i]; de[i] = d*nv[kind-4]*nv[i]; }
  }
  else
  {
    Func3* dir = new Func3(3);
    dir->v[0] = 0.0; dir->v[1] = 6.0; dir->v[2] = -8.0;
    pf = new PressureField(p,dir);
    e[0] = 0.0; e[1] = 0.6*v; e[2] = -0.8*v;
    de[0] = 0.0; de[1] = 0.6*d; de[2] = -0.8*d;
  }
  const TractionFunc& trac = *pf;
  Vec3 t = trac(X,nv), dt = trac.timeDerivative(X,nv);
  for (int i = 0; i < 3; i++)
  {
    vc_eq(t[i],e[i],"traction of the pressure");
    vc_eq(dt[i],de[i],"rate of the traction of the pressure");
  }
  vc_true(trac.isNormalPressure() == (kind == 0 || (kind > 3 && kind < 7)),"pressures that act along the normal");
  vc_true(trac.isZero() == (v == 0.0),"the pressure is zero if its function is");
  delete pf;
}

CONTRACT(H_constant_pressure)
{
  int dir = vc_pick("direction",0,3);
  double p = vc_bool("nonzero") ? 2.5 : 0.0;
  PressureField pf(p,dir);
  const TractionFunc& trac = pf;
  Vec3 X = somePoint(), n = somePoint(), t = trac(X,n), dt = trac.timeDerivative(X,n);
  for (int i = 0; i < 3; i++)
  {
    vc_eq(t[i],dir == 0 ? p*n[i] : (i == dir-1 ? p : 0.0),"traction of a constant pressure");
    vc_eq(dt[i],0.0,"a constant pressure has no rate");
  }
  vc_true(trac.isZero() == (p == 0.0),"zero pressure");
}

// A force resultant is distributed by its shape function in the rotated local axes, and acts along their Y-axis
CONTRACT(H_directed_force)
{
  double tF = -1.0, tD = -1.0;
  double F = vc_real("F"), t = vc_real("t");
  Func1* shape = new Func1();
  double S = shape->v;
  Vec3 X0 = somePoint();
  Vec4 X(somePoint(),t);
  bool local = vc_bool("local");
  // Columns of the local-to-global transformation
  const double Ax[3] = { 0.0, 0.6, 0.8 }, Az[3] = { 1.0, 0.0, 0.0 };
  Vec3 xa = local ? Vec3(Ax[0],Ax[1],Ax[2]) : Vec3(1.0,0.0,0.0), za = local ? Vec3(Az[0],Az[1],Az[2]) : Vec3(0.0,0.0,1.0);
  Vec3 ya(za.y*xa.z-za.z*xa.y,za.z*xa.x-za.x*xa.z,za.x*xa.y-za.y*xa.x);
  Vec3 axes[3] = { xa, ya, za };

  int kind = vc_pick("kind",0,2);
  const double ang = vc_real_range("angle",1.0,80.0), half = 0.5*(ang*(M_PI/180.0)), sn = sin(half), cs = cos(half);
  double R[3][3] = {{1,0,0},{0,1,0},{0,0,1}};
  ForceDirField* ff = nullptr;
  double d[3] = { 0.0, 0.0, 0.0 };
  bool known = true;
  if (kind < 2) // rotation about one axis
  {
    int k = vc_pick("axis",0,2), a = (k+1)%3, b = (k+2)%3;
    R[a][a] = R[b][b] = 1.0-2.0*sn*sn;
    R[a][b] = -2.0*sn*cs;
    R[b][a] = 2.0*sn*cs;
    for (int i = 0; i < 3; i++) d[i] = R[i][1];
    if (kind == 0)
      ff = new ForceDirField(new TimeFunc(F,&tF),new TimeFunc(ang,&tD),'X'+k,shape,xa,za,X0);
    else
    {
      Vec3 rot;
      rot[k] = ang;
      ff = new ForceDirField(new TimeFunc(F,&tF),new Direction(rot,&tD),shape,xa,za,X0);
    }
  }
  else // given direction
  {
    known = false;
    d[0] = 0.6; d[1] = 0.8;
    ff = new ForceDirField(new TimeFunc(F,&tF),new Direction(Vec3(d[0],d[1],d[2]),&tD),shape,xa,za,X0,true);
  }
  const TractionFunc& trac = *ff;
  Vec3 tv = trac(X,Vec3(1,0,0));
  vc_eq(tF,t,"the force is evaluated at the time");
  vc_eq(tD,t,"the direction is evaluated at the time");
  for (int i = 0; i < 3; i++)
  {
    double e = 0.0;
    for (int j = 0; j < 3; j++) e += axes[j][i]*d[j];
    vc_near(tv[i],F*S*e,1.0e-12,"traction of the force resultant");
  }
  if (known)
    for (int k = 0; k < 3; k++)
    {
      double e = 0.0;
      for (int j = 0; j < 3; j++)
      {
        double l = 0.0;
        for (int i = 0; i < 3; i++) l += (X[i]-X0[i])*axes[j][i];
        e += R[j][k]*l;
      }
      vc_near(shape->at[k],e,1.0e-12,"the shape function is evaluated in the rotated local axes");
    }
  delete ff;
}

// A nodal table gives the values of the node that is in the point
CONTRACT(H_nodal_function)
{
  int nf = vc_size("fields",1,3), n1 = 3, n2 = 2;
  CoordPatch p1(nf,IntVec(n1,0),{{0,1,2}}), p2(nf,IntVec(n2,0),{{0,1}});
  const int id1[3] = { 4, 2, 1 }, id2[2] = { 1, 3 };
  const double x1[3] = { 0.0, 1.0, 2.0 }, x2[2] = { 2.0, 3.0 };
  for (int i = 0; i < n1; i++) { p1.myMLGN[i] = id1[i]; p1.xyz[i] = Vec3(x1[i],0.5,0.0); }
  for (int i = 0; i < n2; i++) { p2.myMLGN[i] = id2[i]; p2.xyz[i] = Vec3(x2[i],0.5,0.0); }
  Model m(nf);
  m.myModel = { &p1, &p2 };
  int nn = vc_pick("values",3,4);
  std::vector<double> val(nf*nn);
  vc_fill(val.data(),val.size(),"val");
  std::map<int,int> ids = {{7,2},{9,4},{5,1}};
  bool mapped = vc_bool("mapped");
  NodeVecFunc f(m,val,mapped ? &ids : nullptr);
  const VecFunc& fn = f;
  int how = vc_pick("point",0,2);
  int node = 0;
  Vec4 X;
  if (how == 0) // by index
  {
    int k = vc_pick("node",1,4);
    X.idx = k;
    if (mapped) { X.idx = k == 1 ? 5 : k == 2 ? 7 : k == 4 ? 9 : 8; node = k == 3 ? 0 : k; }
    else node = k;
    X.x = 100.0; // no node there
  }
  else
  {
    int k = vc_pick("position",0,4);
    X.x = k; X.y = 0.5;
    const int at[5] = { 4, 2, 1, 3, 0 };
    node = at[k];
    if (how == 2) fn(X); // a repeated evaluation
  }
  Vec3 v = fn(X);
  bool ok = node > 0 && node <= nn;
  for (int k = 0; k < 3; k++)
    vc_eq(v[k],ok && k < nf ? val[nf*(node-1)+k] : 0.0,"value of the node in the point");
  vc_true(!f.isZero(),"the function is not zero");
  std::vector<double> none;
  NodeVecFunc g(m,none);
  vc_true(g.isZero(),"a function without values is zero");
  Vec3 z = static_cast<const VecFunc&>(g)(X);
  for (int k = 0; k < 3; k++) vc_eq(z[k],0.0,"a function without values is zero");
}

// The monomials of complete polynomials
CONTRACT(H_monomials)
{
  int p = vc_size("degree",0,4);
  double x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
  std::vector<double> phi;
  auto power = [](double a, int n) { double r = 1.0; for (int i = 0; i < n; i++) r *= a; return r; };
  if (vc_bool("3D"))
  {
    utl::Pascal(p,x,y,z,phi);
    size_t n = 0;
    for (int q = 0; q <= p; q++)
      for (int i = q; i >= 0; i--)
        for (int j = q-i; j >= 0; j--, n++)
          if (n < phi.size()) vc_eq(phi[n],power(x,i)*power(y,j)*power(z,q-i-j),"monomial in 3D");
    vc_eqi(phi.size(),n,"number of monomials in 3D");
    vc_eqi(utl::Pascal(p,3),n,"count of monomials in 3D");
  }
  else
  {
    utl::Pascal(p,x,y,phi);
    size_t n = 0;
    for (int q = 0; q <= p; q++)
      for (int i = q; i >= 0; i--, n++)
        if (n < phi.size()) vc_eq(phi[n],power(x,i)*power(y,q-i),"monomial in 2D");
    vc_eqi(phi.size(),n,"number of monomials in 2D");
    vc_eqi(utl::Pascal(p,2),n,"count of monomials in 2D");
  }
}
