// VC-TU: src/ASM/Lagrange.C src/Utility/LagrangeInterpolator.C
// VC-TIME: 90
#include "vc.h"
#include "Lagrange.h"
#include "LagrangeInterpolator.h"

//! The nodal polynomial and its derivative by forward differentiation of the product
static void nodal(const RealArray& p, int k, double x, double& v, double& d)
{
  v = 1.0; d = 0.0;
  for (int j = 0; j < (int)p.size(); j++)
    if (j != k) {
      d = d*(x-p[j]) + v;
      v = v*(x-p[j]);
    }
  double w = 1.0;
  for (int j = 0; j < (int)p.size(); j++)
    if (j != k) w *= p[k]-p[j];
  v /= w; d /= w;
}

static RealArray nodes(int n, const char* nm)
{
  RealArray p(n);
  vc_fill(p.data(),n,nm);
  for (int i = 1; i < n; i++) vc_assume(p[i] > p[i-1]);
  return p;
}

CONTRACT(H_basis_1d_values)
{
  int n = vc_pick("n",1,5);
  RealArray p = nodes(n,"node"), val;
  double x = vc_real("x"), s = 0.0, v, d;
  vc_true(Lagrange::computeBasis(val,nullptr,p,x),"values are available everywhere");
  vc_eqi(val.size(),n,"number of functions");
  for (int i = 0; i < n; i++) {
    nodal(p,i,x,v,d);
    vc_eq(val[i],v,"nodal polynomial");
    s += val[i];
  }
  vc_eq(s,1.0,"partition of unity");
}

CONTRACT(H_basis_1d_nodal)
{
  int n = vc_pick("n",1,6), k = vc_pick("k",0,5);
  vc_assume(k < n);
  RealArray p = nodes(n,"node"), val;
  Matrix der;
  vc_true(Lagrange::computeBasis(val,&der,p,p[k]),"nodes are inside the range");
  for (int i = 0; i < n; i++)
    vc_eq(val[i],i == k ? 1.0 : 0.0,"one at the own node, zero at all others");
}

CONTRACT(H_basis_1d_derivatives)
{
  int n = vc_pick("n",1,4);
  RealArray p = nodes(n,"node"), val;
  Matrix der;
  double x = vc_real("x"), s = 0.0, q = 0.0, v, d;
  bool ok = Lagrange::computeBasis(val,&der,p,x);
  if (x < p.front() || x > p.back()) { vc_true(!ok,"derivatives outside the nodes are refused"); return; }
  vc_true(ok,"derivatives are available inside the range");
  vc_cover("1D derivatives");
  vc_eqi(der.rows(),n,"rows of the derivative matrix");
  vc_eqi(der.cols(),1,"columns of the derivative matrix");
  for (int i = 0; i < n; i++) {
    nodal(p,i,x,v,d);
    vc_eq(val[i],v,"nodal polynomial");
    vc_eq(der(i+1,1),d,"derivative of the nodal polynomial");
    s += der(i+1,1);
    q += p[i]*der(i+1,1);
  }
  vc_eq(s,0.0,"derivatives sum to zero");
  if (n > 1) vc_eq(q,1.0,"derivative of the coordinate");
}

CONTRACT(H_basis_equidistant)
{
  int n = vc_pick("n",2,7), w = vc_pick("overload",0,1);
  double x = vc_real_range("x",-1,1), v, d;
  RealArray p(n), val;
  Matrix der;
  for (int i = 0; i < n; i++) p[i] = -1.0 + i*(2.0/(n-1));
  if (w == 1) vc_assume(p[n-1] >= x && p[0] <= x);
  vc_true(w ? Lagrange::computeBasis(val,der,n,x) : Lagrange::computeBasis(val,n,x),"evaluated");
  for (int i = 0; i < n; i++) {
    nodal(p,i,x,v,d);
    vc_near(val[i],v,1e-9,"equidistant nodal polynomial");
    if (w) vc_near(der(i+1,1),d,1e-8,"derivative of the equidistant nodal polynomial");
  }
}

static void tensorProduct(int dim, bool equi)
{
  int n[3] = { 0, 0, 0 };
  n[0] = vc_pick("n1",equi ? 2 : 1,3);
  n[1] = vc_pick("n2",equi ? 2 : 1,dim > 2 ? 2 : 3);
  if (dim > 2) n[2] = vc_pick("n3",equi ? 2 : 1,3);
  RealArray p[3], val;
  Matrix der;
  double x[3] = { 0.0, 0.0, 0.0 }, v[3][4], d[3][4];
  int withDer = vc_pick("derivatives",0,1);
  static const char* nn[3] = { "node1", "node2", "node3" };
  for (int k = 0; k < dim; k++) {
    if (equi) {
      x[k] = vc_real_range("x",-1,1);
      p[k].resize(n[k]);
      for (int i = 0; i < n[k]; i++) p[k][i] = -1.0 + i*(2.0/(n[k]-1));
    }
    else {
      x[k] = vc_real("x");
      p[k] = nodes(n[k],nn[k]);
      vc_assume(x[k] >= p[k].front() && x[k] <= p[k].back());
    }
    for (int i = 0; i < n[k]; i++) nodal(p[k],i,x[k],v[k][i],d[k][i]);
  }
  bool ok;
  if (equi && withDer)
    ok = dim == 2 ? Lagrange::computeBasis(val,der,n[0],x[0],n[1],x[1])
                  : Lagrange::computeBasis(val,der,n[0],x[0],n[1],x[1],n[2],x[2]);
  else if (equi)
    ok = dim == 2 ? Lagrange::computeBasis(val,n[0],x[0],n[1],x[1])
                  : Lagrange::computeBasis(val,n[0],x[0],n[1],x[1],n[2],x[2]);
  else
    ok = dim == 2 ? Lagrange::computeBasis(val,withDer ? &der : nullptr,p[0],x[0],p[1],x[1])
                  : Lagrange::computeBasis(val,withDer ? &der : nullptr,p[0],x[0],p[1],x[1],p[2],x[2]);
  vc_true(ok,"evaluated");
  int m3 = dim > 2 ? n[2] : 1, nen = n[0]*n[1]*m3, c = 0;
  vc_eqi(val.size(),nen,"number of functions");
  if (withDer) {
    vc_eqi(der.rows(),nen,"rows of the derivative matrix");
    vc_eqi(der.cols(),dim,"columns of the derivative matrix");
  }
  for (int k = 0; k < m3; k++)
    for (int j = 0; j < n[1]; j++)
      for (int i = 0; i < n[0]; i++, c++) {
        double v3 = dim > 2 ? v[2][k] : 1.0;
        vc_eq(val[c],v[0][i]*v[1][j]*v3,"tensor product, first direction fastest");
        if (!withDer) continue;
        vc_eq(der(c+1,1),d[0][i]*v[1][j]*v3,"derivative in the first direction");
        vc_eq(der(c+1,2),v[0][i]*d[1][j]*v3,"derivative in the second direction");
        if (dim > 2) vc_eq(der(c+1,3),v[0][i]*v[1][j]*d[2][k],"derivative in the third direction");
      }
}

CONTRACT(H_basis_2d) { tensorProduct(2,false); }
CONTRACT(H_basis_3d) { tensorProduct(3,false); }
CONTRACT(H_basis_2d_equidistant) { tensorProduct(2,true); }
CONTRACT(H_basis_3d_equidistant) { tensorProduct(3,true); }

CONTRACT(H_basis_reused_storage)
{
  // The output arrays may be larger than needed from an earlier call
  RealArray p = nodes(3,"node"), val(5,7.0), val0;
  Matrix der(5,2), der0;
  double x = vc_real("x");
  vc_assume(x >= p.front() && x <= p.back());
  vc_true(Lagrange::computeBasis(val,&der,p,x) && Lagrange::computeBasis(val0,&der0,p,x),"evaluated");
  for (int i = 0; i < 3; i++) {
    vc_eq(val[i],val0[i],"values do not depend on the storage");
    vc_eq(der(i+1,1),der0(i+1,1),"derivatives do not depend on the storage");
  }
}

CONTRACT(H_interpolator_evaluate)
{
  int n = vc_pick("n",1,5), k = vc_pick("k",0,4);
  vc_assume(k < n);
  RealArray p = nodes(n,"node");
  double x = vc_real("x"), v, d;
  LagrangeInterpolator L(p);
  nodal(p,k,x,v,d);
  vc_eq(L.evaluate(x,k),v,"nodal polynomial");
  for (int i = 0; i < n; i++)
    vc_eq(L.evaluate(p[i],k),i == k ? 1.0 : 0.0,"one at the own node, zero at all others");
}

CONTRACT(H_interpolator_polynomial)
{
  int n = vc_pick("n",1,4);
  RealArray p = nodes(n,"node"), c(n), f(n);
  vc_fill(c.data(),n,"coefficient");
  double x = vc_real("x"), e = 0.0;
  for (int i = 0; i < n; i++)
    for (int k = n-1; k >= 0; k--) f[i] = f[i]*p[i] + c[k];
  for (int k = n-1; k >= 0; k--) e = e*x + c[k];
  LagrangeInterpolator L(p);
  vc_eq(L.interpolate(x,f),e,"polynomials up to the degree are reproduced");
}

CONTRACT(H_interpolator_matrix)
{
  int n = vc_pick("n",1,3), m = vc_pick("m",1,3);
  RealArray p = nodes(n,"node"), x(m), f(n);
  vc_fill(x.data(),m,"x");
  vc_fill(f.data(),n,"f");
  LagrangeInterpolator L(p);
  utl::matrix<Real> A = L.get(x);
  vc_eqi(A.rows(),m,"one row per evaluation point");
  vc_eqi(A.cols(),n,"one column per grid point");
  for (int i = 0; i < m; i++) {
    double s = 0.0;
    for (int j = 0; j < n; j++) {
      double v, d;
      nodal(p,j,x[i],v,d);
      vc_eq(A(i+1,j+1),v,"entry is the nodal polynomial");
      s += A(i+1,j+1)*f[j];
    }
    vc_eq(s,L.interpolate(x[i],f),"matrix times data is the interpolation");
  }
}
