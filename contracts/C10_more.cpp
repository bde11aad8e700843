// VC-TU: src/Utility/Tensor.C src/Utility/Vec3Oper.C src/LinAlg/MatVec.C
// VC-TIME: 120
// VC-ASSUME: the eigenvalue solver of LAPACK is only run natively (bounded, N_ contracts)
// VC-NRANDOM: 400
#include "vc.h"
#include "Tensor.h"
#include "Vec3.h"
#include "Vec3Oper.h"
#include "matrix.h"
#include <cmath>

static void fillT(Tensor& T, const char* nm) { std::vector<Real>& v = T; vc_fill(v.data(),v.size(),nm); }
static Vec3 arbV(const char* nm) { double x = vc_real(nm), y = vc_real(nm), z = vc_real(nm); return Vec3(x,y,z); }

// component of a symmetric tensor in compact storage, zero outside
static Real symc(const SymmTensor& S, int i, int j)
{
  const std::vector<Real>& v = S;
  int n = S.dim();
  if (i == 3 && j == 3 && n == 2) return v.size() == 4 ? v[2] : 0.0;
  if (i > n || j > n) return 0.0;
  if (i == j) return v[i-1];
  if (n == 2) return v[v.size()-1];
  int s = i+j; // 12:3 23:5 13:4
  return s == 3 ? v[3] : (s == 5 ? v[4] : v[5]);
}

static SymmTensor symm(const char* dim, const char* nm)
{
  int k = vc_pick(dim,0,3);
  SymmTensor S(k == 0 ? 1 : (k == 3 ? 3 : 2),k == 2);
  fillT(S,nm);
  return S;
}

CONTRACT(H_tensor_from_values)
{
  int n = vc_pick("n",1,3), tr = vc_pick("transpose",0,1);
  std::vector<Real> a(n*n);
  vc_fill(a.data(),n*n,"a");
  Tensor T(a,tr);
  vc_eqi(T.dim(),n,"dimension from the number of values");
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++)
      vc_eq(T(i,j),tr ? a[(i-1)*n+j-1] : a[(j-1)*n+i-1],"values by columns, or by rows when transposed");
  // assignment of a list of another length
  int m = vc_pick("m",0,10);
  std::vector<Real> b(m);
  vc_fill(b.data(),m,"b");
  T = b;
  const std::vector<Real>& v = T;
  vc_eqi(v.size(),n*n,"the dimension is kept");
  for (int i = 0; i < n*n; i++)
    vc_eq(v[i],i < m ? b[i] : 0.0,"the values given, the rest is zero");
  Vec3 e1 = arbV("e1"), e2 = arbV("e2"), e3 = arbV("e3");
  Tensor Q(e1,e2,e3);
  for (int i = 1; i <= 3; i++) {
    vc_eq(Q(i,1),e1(i),"first column");
    vc_eq(Q(i,2),e2(i),"second column");
    vc_eq(Q(i,3),e3(i),"third column");
  }
  for (int j = 0; j < 4; j++) {
    Vec3 c = T[j];
    for (int i = 0; i < 3; i++)
      vc_eq(c[i],i < n && j < n ? T(i+1,j+1) : 0.0,"column access");
  }
  Tensor P(T);
  P *= Tensor(T,true);
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real p = 0.0;
      for (int k = 1; k <= n; k++) p += T(i,k)*T(j,k);
      vc_eq(P(i,j),p,"product operator");
    }
}

CONTRACT(H_symm_from_values)
{
  int m = vc_pick("m",0,7);
  std::vector<Real> a(m);
  vc_fill(a.data(),m,"a");
  SymmTensor S(a);
  const std::vector<Real>& v = S;
  vc_eqi(S.dim(),m > 5 ? 3 : (m > 2 ? 2 : (m > 0 ? 1 : 0)),"dimension from the number of values");
  vc_eqi(v.size(),m > 5 ? 6 : (m == 4 ? 4 : (m > 2 ? 3 : (m > 0 ? 1 : 0))),"number of values");
  for (size_t i = 0; i < v.size(); i++) vc_eq(v[i],a[i],"values");
}

//! Assignments between all dimensions and storage forms
CONTRACT(H_tensor_assign)
{
  SymmTensor S = symm("source","S");
  int k = vc_pick("target",0,6);
  if (k < 3) {
    Tensor T(k+1);
    fillT(T,"T");
    T = S;
    for (int i = 1; i <= k+1; i++)
      for (int j = 1; j <= k+1; j++)
        vc_eq(T(i,j),symc(S,i,j),"the common components are copied, the rest is zero");
  }
  else {
    k -= 3;
    SymmTensor T(k == 0 ? 1 : (k == 3 ? 3 : 2),k == 2);
    fillT(T,"T");
    const std::vector<Real>& v = S;
    if (vc_pick("copy",0,1)) {
      T.copy(S);
      const std::vector<Real>& w = T;
      vc_true(w.size() == v.size() && T.dim() == S.dim(),"a copy has the same dimension");
      for (size_t i = 0; i < v.size() && i < w.size(); i++) vc_eq(w[i],v[i],"a copy has the same values");
    }
    else {
      if (k == 2 && S.dim() == 2 && v.size() == 3) return; // the out-of-plane component is not defined by the source
      T = S;
      for (int i = 1; i <= (int)T.dim(); i++)
        for (int j = 1; j <= (int)T.dim(); j++)
          vc_eq(symc(T,i,j),symc(S,i,j),"the common components are copied, the rest is zero");
      if (k == 2) vc_eq(symc(T,3,3),symc(S,3,3),"out-of-plane component");
    }
  }
}

CONTRACT(H_symm_operators)
{
  SymmTensor A = symm("dim","A"), B(A);
  const std::vector<Real>& va = A;
  fillT(B,"B");
  int n = A.dim();
  bool w33 = va.size() == 4;
  double s = vc_real("s");
  SymmTensor P = A+s, M = A-s, Q = s*A, R = A+B, D = A-B, C(A), E(A), F(A);
  C += s; E -= s; F = s;
  for (int i = 1; i <= 3; i++)
    for (int j = 1; j <= 3; j++)
      if ((i <= n && j <= n) || (w33 && i == 3 && j == 3)) {
        double d = i == j ? s : 0.0;
        vc_eq(symc(P,i,j),symc(A,i,j)+d,"tensor plus scaled unit tensor");
        vc_eq(symc(M,i,j),symc(A,i,j)-d,"tensor minus scaled unit tensor");
        vc_eq(symc(C,i,j),symc(A,i,j)+d,"adding a scaled unit tensor");
        vc_eq(symc(E,i,j),symc(A,i,j)-d,"subtracting a scaled unit tensor");
        vc_eq(symc(F,i,j),d,"assigning a scaled unit tensor");
        vc_eq(symc(Q,i,j),s*symc(A,i,j),"scaling");
        vc_eq(symc(R,i,j),symc(A,i,j)+symc(B,i,j),"sum");
        vc_eq(symc(D,i,j),symc(A,i,j)-symc(B,i,j),"difference");
      }
  Real tr = 0.0, l2 = 0.0;
  for (int i = 1; i <= 3; i++) {
    tr += symc(A,i,i);
    for (int j = 1; j <= 3; j++) l2 += symc(A,i,j)*symc(A,i,j);
  }
  vc_eq(A.trace(),tr,"trace");
  vc_eq(A.L2norm(false),l2,"squared norm is the sum of all squared components");
  double l = A.L2norm();
  vc_eq(l*l,l2,"norm is the root");
  vc_true(&A.transpose() == &A && &A.symmetrize() == &A,"nothing to transpose");
  // the product contracts over the indices
  SymmTensor X = A*B;
  vc_eqi(X.dim(),n,"dimension of the product");
  for (int i = 1; i <= n; i++)
    for (int j = i; j <= n; j++) {
      Real p = 0.0;
      for (int k = 1; k <= n; k++) p += symc(A,i,k)*symc(B,k,j);
      vc_eq(symc(X,i,j),p,"upper triangle of the product");
    }
  if (w33) vc_eq(symc(X,3,3),symc(A,3,3)*symc(B,3,3),"out-of-plane component of the product");
  if (w33) vc_cover("with the out-of-plane component");
  Vec3 u = arbV("u");
  A.outerProd(u);
  for (int i = 1; i <= 3; i++)
    for (int j = 1; j <= 3; j++)
      if ((i <= n && j <= n) || (w33 && i == 3 && j == 3))
        vc_eq(symc(A,i,j),u(i)*u(j),"outer product of a vector with itself");
}

//! The inner product counts each independent component once
CONTRACT(H_symm_inner)
{
  SymmTensor A = symm("dimA","A"), B = symm("dimB","B");
  const std::vector<Real>& va = A;
  const std::vector<Real>& vb = B;
  int n = A.dim() < B.dim() ? A.dim() : B.dim();
  Real p = 0.0;
  for (int i = 1; i <= n; i++)
    for (int j = i; j <= n; j++) p += symc(A,i,j)*symc(B,i,j);
  if (va.size() == 4 && vb.size() == 4) p += symc(A,3,3)*symc(B,3,3);
  vc_eq(A.innerProd(B),p,"sum over the independent components of both");
  vc_eq(ddot(A,B),p,"sum over the independent components of both");
}

CONTRACT(H_cauchy_green_reuse)
{
  SymmTensor A = symm("dim","A"), B(A);
  int n = vc_pick("n",1,3);
  Tensor F(n);
  fillT(F,"F");
  A.rightCauchyGreen(F);
  B.leftCauchyGreen(F);
  vc_true((int)A.dim() == n && (int)B.dim() == n,"dimension of the deformation gradient");
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real r = 0.0, l = 0.0;
      for (int k = 1; k <= n; k++) { r += F(k,i)*F(k,j); l += F(i,k)*F(j,k); }
      vc_eq(symc(A,i,j),r,"F^T*F");
      vc_eq(symc(B,i,j),l,"F*F^T");
    }
}

CONTRACT(H_symm_transform_mixed)
{
  SymmTensor A(3), B(A);
  fillT(A,"A");
  B = A;
  Tensor R(2);
  fillT(R,"R");
  A.transform(R); // in-plane transformation of a 3D tensor
  Real T[3][3] = { { R(1,1),R(1,2),0.0 }, { R(2,1),R(2,2),0.0 }, { 0.0,0.0,1.0 } };
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      Real p = 0.0;
      for (int k = 0; k < 3; k++)
        for (int l = 0; l < 3; l++) p += T[i][k]*symc(B,k+1,l+1)*T[j][l];
      vc_eq(symc(A,i+1,j+1),p,"R*A*R^T with R acting in the plane");
    }
}

CONTRACT(H_tensor_compare)
{
  int n = vc_pick("n",1,3);
  Tensor A(n), B(n);
  fillT(A,"A"); fillT(B,"B");
  double tol = vc_real("tol");
  vc_assume(tol > 0.0);
  bool e = true;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) e = e && fabs(A(i,j)-B(i,j)) <= tol;
  vc_true(A.equal(B,tol) == e,"equal when all components are within the tolerance");
}

CONTRACT(H_vec3)
{
  Vec3 a = arbV("a"), b = arbV("b"), c;
  double s = vc_real("s");
  std::vector<Real> x(vc_pick("n",0,4));
  vc_fill(x.data(),x.size(),"x");
  Vec3 X(x), Y(x.data(),x.size()), N(-a), CR(a,b), P(a), M(a), K;
  P += b; M -= b;
  c = a; K = s;
  Vec3 sum = a+b, dif = a-b, sc = a*s, sc2 = s*a, ps = a+s, ms = a-s;
  std::vector<Real> w = a.vec(2);
  vc_eqi(w.size(),2,"leading components");
  for (int i = 0; i < 3; i++) {
    vc_eq(X[i],i < (int)x.size() ? x[i] : 0.0,"missing values are zero");
    vc_eq(Y[i],i < (int)x.size() ? x[i] : 0.0,"missing values are zero");
    vc_eq(N[i],-a[i],"negative");
    vc_eq(P[i],a[i]+b[i],"sum"); vc_eq(sum[i],a[i]+b[i],"sum");
    vc_eq(M[i],a[i]-b[i],"difference"); vc_eq(dif[i],a[i]-b[i],"difference");
    vc_eq(sc[i],s*a[i],"scaling"); vc_eq(sc2[i],s*a[i],"scaling");
    vc_eq(ps[i],a[i]+s,"offset"); vc_eq(ms[i],a[i]-s,"offset");
    vc_eq(c[i],a[i],"copy"); vc_eq(K[i],s,"fill");
    vc_eq(a(i+1),a[i],"one-based index"); vc_eq(a.ptr()[i],a[i],"pointer");
    vc_eq(CR[i],a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3],"cross product");
    if (i < 2) vc_eq(w[i],a[i],"leading components");
  }
  vc_eq(a.x,a[0],"named component"); vc_eq(a.y,a[1],"named component"); vc_eq(a.z,a[2],"named component");
  vc_eq(a*b,a[0]*b[0]+a[1]*b[1]+a[2]*b[2],"scalar product");
  vc_eq(a.sum(),a[0]+a[1]+a[2],"sum of the components");
  vc_eq(a.asum(),fabs(a[0])+fabs(a[1])+fabs(a[2]),"sum of the absolute values");
  vc_eq(a.length2(),a[0]*a[0]+a[1]*a[1]+a[2]*a[2],"squared length");
  double l = a.length();
  vc_eq(l*l,a.length2(),"length");
  vc_assume(s != 0.0);
  Vec3 q = a/s, r(a);
  r /= s;
  for (int i = 0; i < 3; i++) { vc_eq(q[i]*s,a[i],"division"); vc_eq(r[i]*s,a[i],"division"); }
}

CONTRACT(H_vec3_normalize)
{
  Vec3 a = arbV("a"), u(a);
  double tol = vc_real("tol");
  vc_assume(tol > 0.0);
  double l = u.normalize(tol);
  vc_eq(l*l,a.length2(),"returns the length");
  bool n = l > tol;
  for (int i = 0; i < 3; i++)
    vc_eq(n ? u[i]*l : u[i],a[i],"divided by the length, unless it is too small");
}

CONTRACT(H_vec3_compare)
{
  Vec3 a = arbV("a"), b = arbV("b"), c = arbV("c");
  double tol = vc_real("tol");
  vc_assume(tol > 0.0);
  bool eq = true, zero = true, in = true;
  for (int i = 0; i < 3; i++) {
    eq   = eq && fabs(a[i]-b[i]) <= tol;
    zero = zero && fabs(a[i]) <= tol;
    in   = in && a[i]+tol >= b[i] && a[i]-tol <= c[i];
  }
  switch (vc_pick("which",0,3)) {
  case 0: vc_true(a.equal(b,tol) == eq,"equal within the tolerance"); break;
  case 1: vc_true(a.isZero(tol) == zero,"zero within the tolerance"); break;
  case 2: vc_true(a.inside(b,c,tol) == in,"inside the box within the tolerance"); break;
  default: {
    bool ab = a.lessThan(b,tol), ba = b.lessThan(a,tol);
    vc_true(!(ab && ba),"at most one is less than the other");
    if (a.equal(b,tol)) vc_true(!ab && !ba,"equal points are not ordered");
    if (a.z+tol < b.z) vc_true(ab,"the last component comes first");
    else if (fabs(a.z-b.z) < tol && a.y+tol < b.y) vc_true(ab,"then the second");
    else if (fabs(a.z-b.z) < tol && fabs(a.y-b.y) < tol && a.x+tol < b.x) vc_true(ab,"then the first");
    vc_true((a == b) == a.equal(b,Vec3::comparisonTolerance),"comparison operator");
    vc_true((a != b) == !a.equal(b,Vec3::comparisonTolerance),"comparison operator");
    vc_true((a < b) == a.lessThan(b,Vec3::comparisonTolerance),"comparison operator");
  } }
}

CONTRACT(H_vec4)
{
  Vec3 a = arbV("a");
  double t = vc_real("t");
  Real par[3] = { 1.0, 2.0, 3.0 };
  int id = vc_pick("id",0,3);
  Vec4 x(a,t,id), y(x), z(par,t), w(t), v(a.x,a.y,a.z,t), p(a,t,par), o;
  o = x;
  for (int i = 0; i < 3; i++) {
    vc_eq(x[i],a[i],"the point"); vc_eq(y[i],a[i],"the point"); vc_eq(z[i],0.0,"no point");
    vc_eq(w[i],0.0,"no point"); vc_eq(v[i],a[i],"the point"); vc_eq(p[i],a[i],"the point"); vc_eq(o[i],a[i],"the point");
  }
  vc_eq(x.t,t,"time"); vc_eq(y.t,t,"time"); vc_eq(z.t,t,"time"); vc_eq(w.t,t,"time"); vc_eq(v.t,t,"time"); vc_eq(p.t,t,"time"); vc_eq(o.t,t,"time");
  vc_true(x.idx == id && y.idx == id && o.idx == id && z.idx == -1 && w.idx == -1 && v.idx == -1 && p.idx == -1,"node index");
  vc_true(!x.u && !y.u && !o.u && z.u == par && !w.u && !v.u && p.u == par,"parameters");
  std::vector<Real> c(vc_pick("n",0,5));
  vc_fill(c.data(),c.size(),"c");
  Vec4 q(c,par);
  for (int i = 0; i < 3; i++) vc_eq(q[i],i < (int)c.size() ? c[i] : 0.0,"the point");
  vc_eq(q.t,c.size() > 3 ? c[3] : 0.0,"time is the fourth value");
  vc_true(q.u == par,"parameters");
  Vec4 g(p);
  g.assign(x);
  vc_true(g.idx == id && !g.u,"assigned from another point in time");
  vc_eq(g.t,t,"assigned from another point in time");
  Vec3 b = arbV("b");
  p.assign(b);
  for (int i = 0; i < 3; i++) vc_eq(p[i],b[i],"assigned from a point in space");
  vc_true(p.u == par,"parameters are kept");
  vc_eq(p.t,t,"time is kept");
}

CONTRACT(H_vec3_matrix)
{
  int r = vc_pick("rows",1,4), c = vc_pick("cols",3,4);
  utl::matrix<Real> A(r,c);
  vc_fill(A.ptr(),r*c,"A");
  Vec3 x = arbV("x"), y = A*x;
  for (int i = 1; i <= 3; i++) {
    Real p = 0.0;
    if (i <= r) {
      for (int j = 1; j <= 3; j++) p += A(i,j)*x(j);
      if (c == 4) p += A(i,4);
    }
    vc_eq(y(i),p,"matrix times point, in homogeneous coordinates if there are four columns");
  }
  utl::matrix<Real> B(3,c);
  vc_fill(B.ptr(),3*c,"B");
  Vec3 z = x*B;
  for (int j = 1; j <= 3; j++)
    vc_eq(z(j),B(1,j)*x(1)+B(2,j)*x(2)+B(3,j)*x(3),"point times matrix");
}

static void eigenpair(const SymmTensor& S, double p, const Vec3& d, const char* l)
{
  double scale = 1.0+S.L2norm();
  for (int i = 1; i <= 3; i++) {
    Real r = -p*d(i);
    for (int j = 1; j <= 3; j++) r += symc(S,i,j)*d(j);
    vc_near(r,0.0,1e-9*scale,l);
  }
  vc_near(d*d,1.0,1e-9,"unit direction");
}

//! Principal values and directions, natively at random tensors
CONTRACT(N_principal)
{
  int k = vc_pick("dim",1,3);
  SymmTensor S(k == 3 ? 3 : 2,k == 2);
  std::vector<Real>& v = S;
  int kind = vc_pick("kind",0,3);
  for (size_t i = 0; i < v.size(); i++)
    v[i] = kind == 0 ? vc_real_range("S",-5.0,5.0) : kind == 1 ? vc_pick("S",-2,2) : kind == 2 ? (i < (k == 3 ? 3u : 2u) ? vc_pick("S",-2,2) : 0.0) : 1.0e5*vc_real_range("S",-1.0,1.0);
  double sc = 1.0+S.L2norm();
  int nv = k == 1 ? 2 : 3;
  Vec3 p, dir[3];
  vc_true(S.principal(p,dir),"principal values and directions");
  Real sum = 0.0;
  for (int a = 0; a < nv; a++) {
    eigenpair(S,p[a],dir[a],"the directions are eigenvectors");
    sum += p[a];
    if (a > 0) vc_true(p[a] <= p[a-1]+1e-12*sc,"sorted");
    for (int b = 0; b < a; b++) vc_near(dir[a]*dir[b],0.0,1e-9,"orthogonal");
  }
  vc_near(sum,S.trace(),1e-9*sc,"the trace");
  Vec3 q;
  vc_true(S.principal(q),"principal values");
  for (int a = 0; a < nv; a++) vc_near(q[a],p[a],1e-4*sc,"same principal values without directions");
  Vec3 two[2];
  S.principal(q,two,2);
  eigenpair(S,p[0],two[0],"largest");
  eigenpair(S,p[nv-1],two[1],"smallest");
  if (k == 3) {
    Tensor d(3);
    vc_true(S.principal(q,d),"Jacobi iterations");
    for (int a = 0; a < 3; a++) eigenpair(S,q[a],d[a],"the columns are eigenvectors");
  }
  if (k != 2) {
    SymmTensor M[3] = { SymmTensor(k == 3 ? 3 : 2), SymmTensor(k == 3 ? 3 : 2), SymmTensor(k == 3 ? 3 : 2) };
    vc_true(S.principal(q,M),"eigenprojections");
    for (int i = 1; i <= nv; i++)
      for (int j = 1; j <= nv; j++) {
        Real s = 0.0;
        for (int a = 0; a < nv; a++) s += q[a]*symc(M[a],i,j);
        vc_near(s,symc(S,i,j),1e-9*sc,"spectral decomposition");
      }
  }
}

//! The rotation vector is the one the rotation tensor is built from
CONTRACT(N_rotation_vector)
{
  double l = vc_real_range("angle",0.0,3.1);
  Vec3 a(vc_real_range("x",-1.0,1.0),vc_real_range("y",-1.0,1.0),vc_real_range("z",-1.0,1.0));
  if (a.length() < 1.0e-3) a.x = 1.0;
  a.normalize();
  a *= l;
  Tensor R(a.x,a.y,a.z);
  Vec3 b = R.rotVec();
  for (int i = 0; i < 3; i++) vc_near(a[i],b[i],1e-6,"rotation vector");
}
