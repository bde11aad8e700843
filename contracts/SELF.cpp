// Self-test of the loop summaries (tools/selftest.sh): P_good_* must be proved, P_bad_* must not.
// VC-TU: src/LinAlg/MatVec.C
// VC-TIME: 60
#include "vc.h"
#include <vector>
#include <cmath>
typedef std::vector<double> V;
static V vec(size_t n, const char* nm) { V v(n); vc_fill(v.data(),n,nm); return v; }

CONTRACT(P_bad_shift_forward)
{ // every element becomes a[0]; claiming a shift is wrong
  size_t n = vc_size("n",2,6); V a = vec(n,"a"); const V b(a);
  for (size_t i = 0; i+1 < n; i++) a[i+1] = a[i];
  size_t k = vc_index("k",n-1);
  vc_eq(a[k+1],b[k],"shift");
}
CONTRACT(P_good_shift_back)
{
  size_t n = vc_size("n",2,6); V a = vec(n,"a"); const V b(a);
  for (size_t i = 0; i+1 < n; i++) a[i] = a[i+1];
  size_t k = vc_index("k",n-1);
  vc_eq(a[k],b[k+1],"shift");
  vc_eq(a[n-1],b[n-1],"last");
}
CONTRACT(P_bad_reverse)
{ // in-place mirroring over the full range overwrites what it still needs
  size_t n = vc_size("n",2,6); V a = vec(n,"a"); const V b(a);
  for (size_t i = 0; i < n; i++) a[i] = a[n-1-i];
  size_t k = vc_index("k",n);
  vc_eq(a[k],b[n-1-k],"mirror");
}
CONTRACT(P_good_reverse)
{
  size_t n = vc_size("n",2,6); V a(n); const V b = vec(n,"b");
  for (size_t i = 0; i < n; i++) a[i] = b[n-1-i];
  size_t k = vc_index("k",n);
  vc_eq(a[k],b[n-1-k],"mirror");
}
CONTRACT(P_bad_prefix)
{
  size_t n = vc_size("n",2,6); V a(n); const V b = vec(n,"b");
  double s = 0.0;
  for (size_t i = 0; i < n; i++) { s += b[i]; a[i] = s; }
  size_t k = vc_index("k",n);
  vc_eq(a[k],b[k],"prefix");
}
CONTRACT(P_bad_off_by_one)
{
  size_t n = vc_size("n",2,6); const V b = vec(n,"b");
  double s = 0.0, t = 0.0;
  for (size_t i = 0; i < n; i++) s += b[i];
  for (size_t i = 1; i < n; i++) t += b[i];
  vc_eq(s,t,"sums over different ranges");
}
CONTRACT(P_good_split)
{
  size_t n = vc_size("n",2,6); const V b = vec(n,"b"), c = vec(n,"c");
  double s = 0.0, t = 1.0, u = 0.0;
  for (size_t i = 0; i < n; i++) s += 2.0*b[i] - c[i];
  for (size_t i = 0; i < n; i++) t += b[i];
  for (double x : c) u += x;
  vc_eq(s+2.0,2.0*t-u,"sums are linear");
}
CONTRACT(P_bad_bounds)
{
  size_t n = vc_size("n",1,6); V b = vec(n,"b");
  double* p = b.data();
  for (size_t i = 0; i <= n; i++) p[i] = 0.0;
  vc_eq(b[0],0.0,"set");
}
CONTRACT(P_bad_overlap_copy)
{
  size_t n = vc_size("n",2,6); V a(n); const V b = vec(n,"b");
  for (size_t i = 0; i < n; i++) a[i/2] = b[i];
  size_t k = vc_index("k",n);
  vc_eq(a[k],b[k],"halved index");
}
CONTRACT(P_bad_strided)
{ // the index wraps into the next column
  size_t n = vc_size("n",1,4), m = vc_size("m",1,4); V a(n*m); const V b = vec(n*m,"b");
  for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) a[i+n*j] = b[i*m+j];
  size_t i = vc_index("i",n), j = vc_index("j",m);
  vc_eq(a[i*m+j],b[i+n*j],"wrong layout");
}
CONTRACT(P_good_transpose)
{
  size_t n = vc_size("n",1,4), m = vc_size("m",1,4); V a(n*m); const V b = vec(n*m,"b");
  for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) a[i+n*j] = b[i*m+j];
  size_t i = vc_index("i",n), j = vc_index("j",m);
  vc_eq(a[i+n*j],b[i*m+j],"transpose");
}
CONTRACT(P_good_accumulate)
{
  size_t n = vc_size("n",1,4), m = vc_size("m",1,4); V y = vec(n,"y"); const V y0(y), b = vec(n*m,"b");
  for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) y[i] += b[i+n*j];
  for (size_t i = 0; i < n; i++) { double s = y0[i]; for (size_t j = 0; j < m; j++) s += b[i+n*j]; vc_eq(y[i],s,"row sums"); }
}
CONTRACT(P_bad_accumulate)
{ // the sum starts from zero in each column
  size_t n = vc_size("n",1,4), m = vc_size("m",2,4); V y(n); const V b = vec(n*m,"b");
  for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) y[i] = b[i+n*j];
  for (size_t i = 0; i < n; i++) { double s = 0.0; for (size_t j = 0; j < m; j++) s += b[i+n*j]; vc_eq(y[i],s,"row sums"); }
}
CONTRACT(P_good_last_column)
{
  size_t n = vc_size("n",1,4), m = vc_size("m",1,4); V y(n); const V b = vec(n*m,"b");
  for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) y[i] = b[i+n*j];
  for (size_t i = 0; i < n; i++) vc_eq(y[i],b[i+n*(m-1)],"last column");
}
CONTRACT(P_bad_triangle)
{
  size_t n = vc_size("n",2,4); V a(n*n); const V b = vec(n*n,"b");
  for (size_t j = 0; j < n; j++) for (size_t i = 0; i < j; i++) a[i+n*j] = b[i+n*j];
  size_t i = vc_index("i",n), j = vc_index("j",n);
  vc_eq(a[i+n*j],b[i+n*j],"lower part too");
}
CONTRACT(P_good_triangle)
{
  size_t n = vc_size("n",2,4); V a(n*n); const V b = vec(n*n,"b");
  for (size_t j = 0; j < n; j++) for (size_t i = 0; i < j; i++) a[i+n*j] = b[i+n*j];
  size_t i = vc_index("i",n), j = vc_index("j",n);
  vc_eq(a[i+n*j],i < j ? b[i+n*j] : 0.0,"upper part only");
}
CONTRACT(P_bad_break)
{
  size_t n = vc_size("n",2,6); const V b = vec(n,"b");
  double s = 0.0, t = 0.0;
  for (size_t i = 0; i < n; i++) { if (b[i] > 1.0) break; s += b[i]; }
  for (size_t i = 0; i < n; i++) t += b[i];
  vc_eq(s,t,"early exit");
}
CONTRACT(P_bad_conditional)
{
  size_t n = vc_size("n",2,6); const V b = vec(n,"b");
  double s = 0.0, t = 0.0;
  for (size_t i = 0; i < n; i++) if (b[i] > 1.0) s += b[i];
  for (size_t i = 0; i < n; i++) t += b[i];
  vc_eq(s,t,"conditional sum");
}
CONTRACT(P_good_swap)
{
  size_t n = vc_size("n",2,6); V a = vec(n,"a"), b = vec(n,"b"); const V a0(a), b0(b);
  for (size_t i = 0; i < n; i++) { double t = a[i]; a[i] = b[i]; b[i] = t; }
  size_t k = vc_index("k",n);
  vc_eq(a[k],b0[k],"swap"); vc_eq(b[k],a0[k],"swap");
}
CONTRACT(P_bad_alias)
{ // p and q address the same array
  size_t n = vc_size("n",2,6); V a = vec(n,"a"); const V a0(a);
  double* p = a.data(); double* q = a.data()+1;
  for (size_t i = 0; i+1 < n; i++) { q[i] = p[i]; p[i] = 0.0; }
  size_t k = vc_index("k",n-1);
  vc_eq(a[k+1],a0[k],"aliased copy");
}
CONTRACT(P_bad_init)
{
  size_t n = vc_size("n",1,6); V a = vec(n,"a");
  double* p = new double[n];
  for (size_t i = 1; i < n; i++) p[i] = a[i];
  size_t k = vc_index("k",n);
  double v = p[k];
  vc_eq(v,a[k],"first entry never set");
  delete[] p;
}

CONTRACT(P_bad_pointer_of_the_last_iteration)
{
  size_t n = vc_size("n",1,4);
  std::vector<double> a(n), b(n);
  vc_fill(a.data(),n,"a"); vc_fill(b.data(),n,"b");
  const double* p = a.data();
  double s = 0.0;
  for (size_t i = 0; i < n; i++) { s += *p; p = b.data(); }
  vc_eq(s,n*b[0],"the first term is another one");
}

CONTRACT(P_bad_pointer_in_memory)
{
  size_t n = vc_size("n",1,4);
  std::vector<double> a(n), b(n);
  vc_fill(a.data(),n,"a"); vc_fill(b.data(),n,"b");
  const double* volatile p = a.data();
  double s = 0.0;
  for (size_t i = 0; i < n; i++) { s += *p; p = b.data(); }
  vc_eq(s,n*b[0],"the first term is another one");
}

CONTRACT(P_bad_pointer_moves)
{
  size_t n = vc_size("n",1,4);
  std::vector<double> a(n), b(n);
  vc_fill(a.data(),n,"a"); vc_fill(b.data(),n,"b");
  const double* p = a.data();
  double s = 0.0, t = 0.0;
  for (size_t i = 0; i < n; i++) { s += *p; p = &b[i]; }
  for (size_t i = 0; i < n; i++) t += b[i];
  vc_eq(s,t,"the first term is another one and the last one is missing");
}
