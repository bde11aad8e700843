// VC-TU: src/Utility/Functions.C src/Utility/Vec3Oper.C src/Utility/Tensor.C src/Utility/LogStream.C
// VC-TIME: 90
#include "vc.h"
#include "Functions.h"
#include "IFEM.h"
#include "Vec3.h"
#include "Tensor.h"
#include <iostream>
#include <cstring>
#include <memory>

utl::LogStream IFEM::cout(std::cout);

static Vec4 point()
{
  double x = vc_real("x"), y = vc_real("y"), z = vc_real("z"), t = vc_real("t");
  return Vec4(x,y,z,t);
}

//! All values and derivatives at once: value, gradient (x,y,z,t), second derivatives
struct Jet { double v, d[4], dd[4][4]; Jet() { memset(this,0,sizeof(*this)); } };

static void compare(const RealFunc& f, const Vec3& X, const Jet& e, bool second = true)
{
  vc_eq(f(X),e.v,"value");
  vc_eq(f.getValue(X).front(),e.v,"value as array");
  vc_eq(f.getScalarValue(X),e.v,"scalar value");
  for (int i = 1; i <= 4; i++)
    vc_eq(f.deriv(X,i),e.d[i-1],"first derivative");
  vc_eq(f.timeDerivative(X),e.d[3],"time derivative");
  Vec3 g = f.gradient(X);
  for (int i = 0; i < 3; i++) vc_eq(g[i],e.d[i],"gradient");
  if (!second) return;
  for (int i = 1; i <= 4; i++)
    for (int j = 1; j <= 4; j++)
      vc_eq(f.dderiv(X,i,j),e.dd[i-1][j-1],"second derivative");
  SymmTensor H = f.hessian(X);
  for (int i = 1; i <= 3; i++)
    for (int j = 1; j <= 3; j++)
      vc_eq(H(i,j),e.dd[i-1][j-1],"hessian");
}

//! A spatial function of the given kind together with its jet
static RealFunc* space(int kind, int dir, const Vec3& X, Jet& e)
{
  double a = vc_real("a"), b = vc_real("b"), m = vc_real("max"), x = X[dir];
  switch (kind) {
  case 0:
    e.v = m;
    return new ConstFunc(m);
  case 1:
    e.v = a*x + b; e.d[dir] = a;
    if (dir == 0) return new LinearXFunc(a,b);
    if (dir == 1) return new LinearYFunc(a,b);
    return new LinearZFunc(a,b);
  default:
    vc_assume(a-b > 0.01 || b-a > 0.01);
    double h = 4.0*m/((a-b)*(a-b));
    e.v = h*(a-x)*(x-b);
    e.d[dir] = h*((a-x) - (x-b));
    e.dd[dir][dir] = -2.0*h;
    if (dir == 0) return new QuadraticXFunc(m,a,b);
    if (dir == 1) return new QuadraticYFunc(m,a,b);
    return new QuadraticZFunc(m,a,b);
  }
}

static ScalarFunc* timeFunc(int kind, double t, double& v, double& d)
{
  double p = vc_real("p"), q = vc_real("q");
  switch (kind) {
  case 0: v = p; d = 0.0; return new ConstantFunc(p);
  case 1: v = p*t; d = p; return new LinearFunc(p);
  case 2: vc_assume(q > 0.01); v = t < q ? p*t/q : p; d = t < q ? p/q : 0.0; return new RampFunc(p,q);
  default: v = p*sin(q*t); d = p*q*cos(q*t); return new SineFunc(p,q);
  }
}

CONTRACT(H_space_functions)
{
  int kind = vc_pick("kind",0,2), dir = vc_pick("dir",0,2);
  Vec4 X = point();
  Jet e;
  std::unique_ptr<RealFunc> f(space(kind,dir,X,e));
  compare(*f,X,e);
  Vec3 X3(X.x,X.y,X.z);
  compare(*f,X3,e);
}

CONTRACT(H_space_time_functions)
{
  int kind = vc_pick("kind",0,2), dir = vc_pick("dir",0,2), tk = vc_pick("tkind",0,3), noTime = vc_pick("noTime",0,1);
  Vec4 X = point();
  double t = noTime ? 0.0 : X.t, h, dh;
  Jet g, e;
  RealFunc* s = space(kind,dir,X,g);
  ScalarFunc* tf = timeFunc(tk,t,h,dh);
  e.v = g.v*h;
  for (int i = 0; i < 3; i++) {
    e.d[i] = g.d[i]*h;
    e.dd[i][3] = e.dd[3][i] = g.d[i]*dh;
    for (int j = 0; j < 3; j++) e.dd[i][j] = g.dd[i][j]*h;
  }
  e.d[3] = g.v*dh;
  SpaceTimeFunc f(s,tf);
  vc_true(f.isConstant() == tf->isConstant(),"time dependence");
  if (noTime) {
    Vec3 X3(X.x,X.y,X.z);
    compare(f,X3,e,false);
    for (int i = 1; i <= 3; i++)
      for (int j = 1; j <= 4; j++)
        vc_eq(f.dderiv(X3,i,j),e.dd[i-1][j-1],"second derivative");
    return;
  }
  compare(f,X,e,tk < 3);
  for (int i = 1; i <= 3; i++)
    for (int j = 1; j <= 4; j++) {
      vc_eq(f.dderiv(X,i,j),e.dd[i-1][j-1],"second derivative");
      vc_eq(f.dderiv(X,j,i),e.dd[j-1][i-1],"second derivative");
    }
}

CONTRACT(H_time_function_of_point)
{
  int tk = vc_pick("tkind",0,3), noTime = vc_pick("noTime",0,1);
  Vec4 X = point();
  double h, dh;
  ScalarFunc* tf = timeFunc(tk,noTime ? 0.0 : X.t,h,dh);
  ConstTimeFunc f(tf);
  Jet e;
  e.v = h; e.d[3] = dh;
  Vec3 X3(X.x,X.y,X.z);
  if (noTime) compare(f,X3,e,tk < 3); else compare(f,X,e,tk < 3);
  vc_true(f.isConstant() == tf->isConstant(),"time dependence");
  vc_true(f.isZero() == tf->isZero(),"zero function");
}

CONTRACT(H_rotation)
{
  int rX = vc_pick("component",0,1);
  double A = vc_real("A"), x0 = vc_real("x0"), y0 = vc_real("y0");
  Vec4 X = point();
  LinearRotZFunc f(rX == 1,A,x0,y0);
  double c = cos(A*X.t), s = sin(A*X.t), x = X.x-x0, y = X.y-y0;
  // rotated position minus the original one
  double u[2] = { c*x - s*y - x, s*x + c*y - y };
  vc_eq(f(X),rX ? u[0] : u[1],"translation due to the rotation");
  vc_eq(f.deriv(X,1),rX ? c-1.0 : s,"first derivative");
  vc_eq(f.deriv(X,2),rX ? -s : c-1.0,"first derivative");
  vc_eq(f.deriv(X,3),0.0,"first derivative");
  vc_eq(f.deriv(X,4),rX ? -A*(s*x + c*y) : A*(c*x - s*y),"time derivative");
  vc_eq(f.timeDerivative(X),rX ? -A*(s*x + c*y) : A*(c*x - s*y),"time derivative");
  Vec3 X3(X.x,X.y,X.z);
  vc_eq(f(X3),0.0,"zero without time");
  for (int i = 1; i <= 4; i++) vc_eq(f.deriv(X3,i),0.0,"no derivatives without time");
}

CONTRACT(H_step_functions)
{
  int dir = vc_pick("dir",0,2);
  double v = vc_real("v"), a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), d = vc_real("d");
  Vec4 X = point();
  StepXFunc f(v,a,b,'X'+dir);
  Jet e;
  e.v = X[dir] >= a && X[dir] <= b ? v : 0.0;
  compare(f,X,e);
  StepXYFunc g(v,b,d,a,c);
  Jet k;
  k.v = X.x >= a && X.x <= b && X.y >= c && X.y <= d ? v : 0.0;
  compare(g,X,k);
}

CONTRACT(H_step_xyz)
{
  double v = vc_real("v"), eps = vc_pick("tol",0,1)*0.25;
  Vec3 A(vc_real("a1"),vc_real("a2"),vc_real("a3")), B(vc_real("b1"),vc_real("b2"),vc_real("b3"));
  Vec4 X = point();
  StepXYZFunc f(v,A,B,eps);
  bool in = true;
  for (int i = 0; i < 3; i++) in = in && X[i] >= A[i]-eps && X[i] <= B[i]+eps;
  vc_eq(f(X),in ? v : 0.0,"step in space");
  for (int i = 1; i <= 4; i++) vc_eq(f.deriv(X,i),0.0,"first derivative");
}

CONTRACT(H_interpolation)
{
  int n = vc_pick("n",1,3), dir = vc_pick("dir",0,2), ramp = vc_pick("ramp",0,1), noTime = vc_pick("noTime",0,1);
  std::vector<Real> xv(n), yv(n);
  vc_fill(xv.data(),n,"xv");
  vc_fill(yv.data(),n,"yv");
  for (int i = 1; i < n; i++) vc_assume(xv[i] > xv[i-1]);
  double T = ramp ? vc_real("ramptime") : 0.0;
  if (ramp) vc_assume(T > 0.01);
  Vec4 X = point();
  Interpolate1D f(xv,yv,dir,T);
  double x = X[dir], v = yv.back(), d = 0.0;
  for (int i = 0; i < n; i++) vc_assume(x != xv[i]);
  if (x < xv[0]) v = yv[0];
  for (int i = 1; i < n; i++)
    if (x > xv[i-1] && x < xv[i]) {
      d = (yv[i]-yv[i-1])/(xv[i]-xv[i-1]);
      v = yv[i-1] + d*(x-xv[i-1]);
    }
  Jet e;
  double r = 1.0, dr = 0.0;
  if (ramp && !noTime && X.t < T) { r = X.t/T; dr = 1.0/T; vc_cover("ramping up"); }
  e.v = v*r;
  e.d[dir] = d*r;
  e.d[3] = v*dr;
  e.dd[dir][3] = e.dd[3][dir] = d*dr;
  Vec3 X3(X.x,X.y,X.z);
  if (noTime) compare(f,X3,e); else compare(f,X,e);
  vc_true(f.isConstant() == !ramp,"time dependence");
}

CONTRACT(H_vector_constant)
{
  Vec3 v(vc_real("v1"),vc_real("v2"),vc_real("v3"));
  ConstVecFunc f(v);
  Vec4 X = point();
  Vec3 w = f(X), d = f.deriv(X,vc_pick("dir",1,4));
  for (int i = 0; i < 3; i++) { vc_eq(w[i],v[i],"constant vector"); vc_eq(d[i],0.0,"no derivative"); }
}

//! Spatial functions parsed from the text of an input file
CONTRACT(H_parse_real_function)
{
  int c = vc_pick("kind",0,9);
  Vec4 X = point();
  Jet e;
  RealFunc* f = nullptr;
  double r = X.t < 2.0 ? X.t/2.0 : 1.0, dr = X.t < 2.0 ? 0.5 : 0.0;
  switch (c) {
  case 0: f = utl::parseRealFunc("3.5","constant",false); e.v = 3.5; break;
  case 1: f = utl::parseRealFunc("-1.5","linear",false); e.v = -1.5*X.t; e.d[3] = -1.5; break;
  case 2: f = utl::parseRealFunc("2.0 0.5","X",false); e.v = 2.0*X.x+0.5; e.d[0] = 2.0; break;
  case 3: f = utl::parseRealFunc("2.0 0.5","Y",false); e.v = 2.0*X.y+0.5; e.d[1] = 2.0; break;
  case 4: f = utl::parseRealFunc("2.0 0.5","z",false); e.v = 2.0*X.z+0.5; e.d[2] = 2.0; break;
  case 5: f = utl::parseRealFunc("3.0 1.0 5.0","quadY",false);
          e.v = 3.0*(1.0-X.y)*(X.y-5.0)/4.0; e.d[1] = 3.0*(6.0-2.0*X.y)/4.0; e.dd[1][1] = -1.5; break;
  case 6: f = utl::parseRealFunc("2.0 0.5 Ramp 2.0","X",false);
          e.v = (2.0*X.x+0.5)*r; e.d[0] = 2.0*r; e.d[3] = (2.0*X.x+0.5)*dr; e.dd[0][3] = e.dd[3][0] = 2.0*dr; break;
  case 7: f = utl::parseRealFunc("4.0 -1.0 1.0","StepZ",false); e.v = X.z >= -1.0 && X.z <= 1.0 ? 4.0 : 0.0; break;
  case 8: f = utl::parseRealFunc("4.0 -1.0 -2.0 to 1.0 2.0","StepXY",false);
          e.v = X.x >= -1.0 && X.x <= 1.0 && X.y >= -2.0 && X.y <= 2.0 ? 4.0 : 0.0; break;
  case 9: f = utl::parseRealFunc("4.0 0.5 1.5","quadX",false);
          e.v = 16.0*(0.5-X.x)*(X.x-1.5); e.d[0] = 16.0*(2.0-2.0*X.x); e.dd[0][0] = -32.0; break;
  }
  vc_true(f != nullptr,"function is created");
  compare(*f,X,e);
  delete f;
}
