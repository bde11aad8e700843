// VC-TU: src/Utility/Functions.C src/Utility/Vec3Oper.C src/Utility/Tensor.C src/Utility/LogStream.C
// VC-TIME: 90
#include "vc.h"
#include "Functions.h"
#include "IFEM.h"
#include "Vec3.h"
#include <iostream>

utl::LogStream IFEM::cout(std::cout);

static double table(LinearFunc& f, int n, double* x, double* y)
{
  f.scale = vc_real("scale");
  vc_fill(x,n,"x");
  vc_fill(y,n,"y");
  for (int i = 0; i < n; i++) {
    if (i > 0) vc_assume(x[i] > x[i-1]);
    f.fvals.push_back({x[i],y[i]});
  }
  return f.scale;
}

CONTRACT(H_linear_no_table)
{
  double s = vc_real("scale"), x = vc_real("x");
  LinearFunc f(s);
  vc_eq(f(x),s*x,"linear through the origin");
  vc_eq(f.deriv(x),s,"slope");
  vc_true(!f.isConstant(),"not constant");
}

CONTRACT(H_piecewise_linear)
{
  int n = vc_pick("n",1,6);
  double X[6], Y[6], x = vc_real("arg");
  LinearFunc f;
  double s = table(f,n,X,Y);
  if (x <= X[0]) {
    vc_eq(f(x),s*Y[0],"constant before the first point");
    vc_eq(f.deriv(x),0.0,"no slope before the first point");
  }
  else if (x >= X[n-1]) {
    vc_eq(f(x),s*Y[n-1],"constant after the last point");
    if (x > X[n-1]) vc_eq(f.deriv(x),0.0,"no slope after the last point");
  }
  else for (int i = 1; i < n; i++) {
    if (x >= X[i-1] && x <= X[i]) {
      vc_cover("interpolation");
      vc_eq(f(x)*(X[i]-X[i-1]),s*(Y[i-1]*(X[i]-x) + Y[i]*(x-X[i-1])),"linear between the points");
      if (x > X[i-1] && x < X[i])
        vc_eq(f.deriv(x),s*(Y[i]-Y[i-1])/(X[i]-X[i-1]),"slope between the points");
    }
  }
}

CONTRACT(H_piecewise_linear_points)
{
  int n = vc_pick("n",1,7), k = vc_pick("k",0,6);
  vc_assume(k < n);
  double X[7], Y[7];
  LinearFunc f;
  double s = table(f,n,X,Y);
  vc_eq(f(X[k]),s*Y[k],"passes through its points");
  vc_true(f.isConstant() == (n == 1),"constant with one point only");
}

CONTRACT(H_piecewise_linear_lists)
{
  // Lists of different length, jumps (repeated arguments) are allowed
  int n = vc_pick("nx",1,4), m = vc_pick("ny",1,4), k = n < m ? n : m;
  std::vector<Real> x(n), y(m);
  vc_fill(x.data(),n,"x");
  vc_fill(y.data(),m,"y");
  for (int i = 1; i < n; i++) vc_assume(x[i] >= x[i-1]);
  LinearFunc f(x,y);
  double t = vc_real("arg"), v = f(t), d = f.deriv(t);
  if (t <= x[0])
    vc_eq(v,y[0],"first value");
  else if (t > x[k-1])
    vc_eq(v,y[k-1],"last value");
  else for (int i = 1; i < k; i++)
    if (t > x[i-1] && t <= x[i]) {
      vc_eq((v-y[i-1])*(x[i]-x[i-1]),(y[i]-y[i-1])*(t-x[i-1]),"interpolated, left value at a jump");
      vc_eq(d*(x[i]-x[i-1]),y[i]-y[i-1],"slope");
    }
}

CONTRACT(H_piecewise_vector)
{
  int n = vc_pick("n",0,4);
  double X[4];
  Vec3 Y[4];
  LinVecFunc f("/nonexistent/file");
  f.fvals.clear();
  vc_fill(X,n,"x");
  for (int i = 0; i < n; i++) {
    if (i > 0) vc_assume(X[i] > X[i-1]);
    for (int c = 0; c < 3; c++) Y[i][c] = vc_real("y");
    f.fvals.push_back({X[i],Y[i]});
  }
  double x = vc_real("arg");
  Vec3 v = f(x);
  for (int c = 0; c < 3; c++) {
    if (n == 0)
      vc_eq(v[c],0.0,"zero without points");
    else if (x <= X[0])
      vc_eq(v[c],Y[0][c],"constant before the first point");
    else if (x >= X[n-1])
      vc_eq(v[c],Y[n-1][c],"constant after the last point");
    else for (int i = 1; i < n; i++)
      if (x >= X[i-1] && x <= X[i])
        vc_eq(v[c]*(X[i]-X[i-1]),Y[i-1][c]*(X[i]-x) + Y[i][c]*(x-X[i-1]),"linear between the points");
  }
}

CONTRACT(H_ramp)
{
  double f = vc_real("f"), xm = vc_real("xmax"), x = vc_real("x");
  RampFunc r(f,xm);
  vc_assume(xm > 0.0 || x >= xm);
  if (x < xm) {
    vc_eq(r(x)*xm,f*x,"linear up to xmax");
    vc_eq(r.deriv(x)*xm,f,"slope of the ramp");
  }
  else {
    vc_eq(r(x),f,"constant from xmax on");
    vc_eq(r.deriv(x),0.0,"no slope from xmax on");
  }
  vc_true(r.isZero() == (f == 0.0),"zero function");
}

CONTRACT(H_step_dirac)
{
  double a = vc_real("amp"), x0 = vc_real("x0"), x = vc_real("x");
  StepFunc s(a,x0);
  vc_eq(s(x),x < x0 ? 0.0 : a,"step");
  DiracFunc d(a,x0);
  vc_eq(d(x),x > x0-1e-4 && x < x0+1e-4 ? a : 0.0,"Dirac");
  vc_eq(s.deriv(x),0.0,"step has no slope");
  ConstantFunc c(a);
  vc_eq(c(x),a,"constant");
  vc_eq(c.deriv(x),0.0,"constant has no slope");
  vc_true(s.isZero() == (a == 0.0) && c.isZero() == (a == 0.0) && d.isZero() == (a == 0.0),"zero function");
}

CONTRACT(H_sine)
{
  double a = vc_real("scale"), w = vc_real("freq"), p = vc_real("phase"), x = vc_real("x");
  SineFunc s(a,w,p);
  vc_eq(s(x),a*sin(w*x+p),"sine");
  vc_eq(s.deriv(x),a*w*cos(w*x+p),"slope of the sine");
  vc_eq(s.eval(x),s(x),"same value");
}

CONTRACT(H_int_func)
{
  double s = vc_real("s"), o = vc_real("o");
  int i = vc_int("i",-100,100);
  IntFunc f(s,o);
  vc_eq(f(i),o + s*i,"integer function");
}

//! Functions parsed from the text of an input file
CONTRACT(H_parse_time_function)
{
  int c = vc_pick("kind",0,9);
  double t = vc_real("t"), e = 0.0, d = 0.0;
  ScalarFunc* f = nullptr;
  if (c == 9) vc_assume(t != 0.75 && t != 2.0);
  switch (c) {
  case 0: f = utl::parseTimeFunc("2.5","Ramp");           e = t < 2.5 ? t/2.5 : 1.0; d = t < 2.5 ? 1.0/2.5 : 0.0; break;
  case 1: f = utl::parseTimeFunc("2.5 4.0","Ramp");       e = t < 2.5 ? 4.0*t/2.5 : 4.0; d = t < 2.5 ? 4.0/2.5 : 0.0; break;
  case 2: f = utl::parseTimeFunc("0.5 3","Step");         e = t < 0.5 ? 0.0 : 3.0; break;
  case 3: f = utl::parseTimeFunc("0.5 3","Dirac");        e = t > 0.4999 && t < 0.5001 ? 3.0 : 0.0; break;
  case 4: f = utl::parseTimeFunc("1.5","sin");            e = sin(1.5*t); d = 1.5*cos(1.5*t); break;
  case 5: f = utl::parseTimeFunc("1.5 0.25","sin");       e = sin(1.5*t+0.25); d = 1.5*cos(1.5*t+0.25); break;
  case 6: f = utl::parseTimeFunc("1.5 0.25 -2","sin");    e = -2.0*sin(1.5*t+0.25); d = -3.0*cos(1.5*t+0.25); break;
  case 7: f = utl::parseTimeFunc("7.5","constant");       e = 7.5; break;
  case 8: f = utl::parseTimeFunc("3.5","linear");         e = 3.5*t; d = 3.5; break;
  case 9: f = utl::parseTimeFunc("2.0 -1.5","Tinit");     e = t < 2.0 ? -0.75*t : -1.5; d = t < 2.0 ? -0.75 : 0.0; break;
  }
  vc_true(f != nullptr,"function is created");
  vc_eq((*f)(t),e,"parsed time function");
  vc_eq(f->deriv(t),d,"slope of the parsed time function");
  delete f;
}

CONTRACT(H_piecewise_linear_file)
{
  int c = vc_pick("column",1,4);
  double s = vc_real("scale"), t = vc_real("t");
  const char* name = vc_file("# time  value\n0.5 2.0 10.0 4.0\n1.0 1.0 20.0 -4.0\n# comment\n2.5 -2.0 -10.0 8.0\n");
  static const double x[4][3] = {{2.0,1.0,-2.0},{0.5,1.0,2.5},{0.5,1.0,2.5},{0.5,1.0,2.5}};
  static const double y[4][3] = {{0.5,1.0,2.5},{2.0,1.0,-2.0},{10.0,20.0,-10.0},{4.0,-4.0,8.0}};
  LinearFunc f(name,c,s);
  if (c == 1) {
    // decreasing arguments are refused, the points before are used
    vc_eqi(f.fvals.size(),1,"only monotonic points are used");
    vc_eq(f(t),s*0.5,"constant with one point");
    return;
  }
  vc_eqi(f.fvals.size(),3,"all lines but the comments are read");
  for (int i = 0; i < 3; i++) vc_eq(f(x[c-1][i]),s*y[c-1][i],"passes through the points of the file");
  const double *X = x[c-1], *Y = y[c-1];
  if (t > X[0] && t < X[1]) vc_eq(f(t),s*(Y[0] + (Y[1]-Y[0])*(t-X[0])/(X[1]-X[0])),"linear in between");
}

CONTRACT(H_piecewise_vector_file)
{
  int c = vc_pick("column",2,3);
  double t = vc_real("t");
  const char* name = vc_file("0.5 2.0 10.0 4.0 1.0\n#\n1.0 1.0 20.0 -4.0 3.0\n");
  LinVecFunc f(name,c);
  vc_eqi(f.fvals.size(),2,"all lines but the comments are read");
  static const double a[4] = { 2.0, 10.0, 4.0, 1.0 }, b[4] = { 1.0, 20.0, -4.0, 3.0 };
  Vec3 v = f(t);
  double w = t <= 0.5 ? 0.0 : (t >= 1.0 ? 1.0 : (t-0.5)/0.5);
  for (int i = 0; i < 3; i++) vc_eq(v[i],a[c-2+i]*(1.0-w) + b[c-2+i]*w,"vector interpolated from the columns of the file");
}
