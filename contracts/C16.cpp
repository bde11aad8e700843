// VC-TU: src/Utility/GaussQuadrature.C src/Utility/TriangleQuadrature.C
// VC-TIME: 60
#include "vc.h"
#include "GaussQuadrature.h"
#include "TriangleQuadrature.h"

static double ipow(double x, int k) { double r = 1.0; for (int i = 0; i < k; i++) r *= x; return r; }

CONTRACT(H_gauss_rule)
{
  int n = vc_pick("n",1,10);
  const double* x = GaussQuadrature::getCoord(n);
  const double* w = GaussQuadrature::getWeight(n);
  vc_true(x != nullptr && w != nullptr && x != w,"rule is available");
  // The 10-point rule is tabulated with eight decimals only
  double tol = n == 10 ? 6e-8 : 3e-15;
  for (int i = 0; i < n; i++) {
    vc_true(x[i] > -1.0 && x[i] < 1.0,"point inside the interval");
    vc_true(w[i] > 0.0,"positive weight");
    vc_near(x[i],-x[n-1-i],tol,"points symmetric about zero");
    vc_near(w[i],w[n-1-i],tol,"weights symmetric about zero");
    if (i > 0) vc_true(x[i] > x[i-1],"points in increasing order");
  }
  for (int k = 0; k < 2*n; k++) {
    double s = 0.0;
    for (int i = 0; i < n; i++) s += w[i]*ipow(x[i],k);
    vc_near(s,k%2 ? 0.0 : 2.0/(k+1.0),tol,"integral of x^k over [-1,1]");
  }
}

CONTRACT(H_gauss_polynomial)
{
  int n = vc_pick("n",1,10), b = 0;
  const double* x = GaussQuadrature::getCoord(n);
  const double* w = GaussQuadrature::getWeight(n);
  double c[20], q = 0.0, e = 0.0;
  vc_fill(c,2*n,"coefficient");
  for (b = 0; b < 2*n; b++) vc_assume(c[b] >= -1.0 && c[b] <= 1.0);
  for (int i = 0; i < n; i++)
  {
    double p = 0.0;
    for (b = 2*n-1; b >= 0; b--) p = p*x[i] + c[b];
    q += w[i]*p;
  }
  for (b = 0; b < 2*n; b += 2) e += 2.0*c[b]/(b+1.0);
  vc_near(q,e,n == 10 ? 1e-6 : 1e-13,"integral of an arbitrary polynomial of degree 2n-1");
}

CONTRACT(H_gauss_refused)
{
  int n = vc_pick("n",-3,40);
  if (n >= 0 && n <= 10) {
    vc_true(GaussQuadrature::getCoord(n) != nullptr,"available rule");
    return;
  }
  vc_true(GaussQuadrature::getCoord(n) == nullptr,"unavailable rule is refused");
  vc_true(GaussQuadrature::getWeight(n) == nullptr,"unavailable rule is refused");
}

CONTRACT(H_triangle_rule)
{
  int c = vc_pick("rule",0,2), n = c == 0 ? 1 : c+2, deg = c+1;
  const double* x = TriangleQuadrature::getCoord(n);
  const double* w = TriangleQuadrature::getWeight(n);
  vc_true(x != nullptr && w != nullptr,"rule is available");
  static const double fac[8] = { 1, 1, 2, 6, 24, 120, 720, 5040 };
  double sumw = 0.0;
  for (int i = 0; i < n; i++) {
    sumw += w[i];
    double l1 = x[2*i], l2 = x[2*i+1];
    vc_true(l1 >= 0.0 && l2 >= 0.0 && l1+l2 <= 1.0+1e-15,"area coordinates inside the triangle");
    for (int j = 0; j < i; j++)
      vc_true(l1 > x[2*j]+0.1 || l1 < x[2*j]-0.1 || l2 > x[2*j+1]+0.1 || l2 < x[2*j+1]-0.1,"distinct points");
  }
  vc_near(sumw,1.0,3e-15,"weights sum to one");
  for (int a = 0; a <= deg; a++)
    for (int b = 0; a+b <= deg; b++) {
      double s = 0.0;
      for (int i = 0; i < n; i++) s += w[i]*ipow(x[2*i],a)*ipow(x[2*i+1],b);
      vc_near(s,2.0*fac[a]*fac[b]/fac[a+b+2],3e-15,"integral of L1^a L2^b over the triangle");
    }
}

CONTRACT(H_triangle_refused)
{
  int n = vc_pick("n",-2,20);
  if (n == 0 || n == 1 || n == 3 || n == 4) {
    vc_true(TriangleQuadrature::getCoord(n) != nullptr && TriangleQuadrature::getWeight(n) != nullptr,"available rule");
    return;
  }
  vc_true(TriangleQuadrature::getCoord(n) == nullptr,"unavailable rule is refused");
  vc_true(TriangleQuadrature::getWeight(n) == nullptr,"unavailable rule is refused");
}
