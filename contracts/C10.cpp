// VC-TU: src/Utility/Tensor.C src/Utility/Vec3Oper.C
// VC-TIME: 200
#include "vc.h"
#include "Tensor.h"
#include "Vec3.h"
#include "Vec3Oper.h"
#include <cmath>

static void fillT(Tensor& T, const char* nm) { std::vector<Real>& v = T; vc_fill(v.data(),v.size(),nm); }
static int DIM() { return vc_pick("nsd",1,3); }

CONTRACT(H_tensor_products)
{
  int n = DIM();
  Tensor A(n), B(n);
  fillT(A,"A"); fillT(B,"B");
  Tensor C(A); C.postMult(B);
  Tensor D(A); D.preMult(B);
  Tensor S(A); S += B;
  Tensor M(A); M -= B;
  Tensor At(A); At.transpose();
  Tensor At2(A,true);
  Tensor Sy(A); Sy.symmetrize();
  Real a = vc_real("a");
  Tensor Sc(A); Sc *= a;
  Real ip = 0.0, tr = 0.0;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real p = 0.0, q = 0.0;
      for (int k = 1; k <= n; k++) { p += A(i,k)*B(k,j); q += B(i,k)*A(k,j); }
      vc_eq(C(i,j),p,"postMult is A*B");
      vc_eq(D(i,j),q,"preMult is B*A");
      vc_eq(S(i,j),A(i,j)+B(i,j),"sum");
      vc_eq(M(i,j),A(i,j)-B(i,j),"difference");
      vc_eq(At(i,j),A(j,i),"transpose");
      vc_eq(At2(i,j),A(j,i),"transposing copy");
      vc_eq(Sy(i,j),0.5*(A(i,j)+A(j,i)),"symmetrize");
      vc_eq(Sc(i,j),a*A(i,j),"scaling");
      ip += A(i,j)*B(i,j);
      if (i == j) tr += A(i,i);
    }
  vc_eq(A.innerProd(B),ip,"inner product");
  vc_eq(A.trace(),tr,"trace");
  vc_cover("tensor products done");
}

CONTRACT(H_tensor_vector)
{
  int n = DIM();
  Tensor A(n);
  fillT(A,"A");
  Vec3 x(vc_real("x"),n > 1 ? vc_real("y") : 0.0,n > 2 ? vc_real("z") : 0.0);
  Vec3 y = A*x, z = x*A;
  for (int i = 1; i <= n; i++) {
    Real p = 0.0, q = 0.0;
    for (int k = 1; k <= n; k++) { p += A(i,k)*x(k); q += x(k)*A(k,i); }
    vc_eq(y(i),p,"A*x");
    vc_eq(z(i),q,"x*A");
  }
  Vec3 u(vc_real("u"),vc_real("u"),vc_real("u")), v(vc_real("v"),vc_real("v"),vc_real("v"));
  Tensor O(n); O.outerProd(u,v);
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++)
      vc_eq(O(i,j),u(i)*v(j),"outer product");
}

CONTRACT(H_tensor_inverse)
{
  int n = DIM();
  Tensor A(n);
  fillT(A,"A");
  Real d;
  if (n == 1) d = A(1,1);
  else if (n == 2) d = A(1,1)*A(2,2)-A(1,2)*A(2,1);
  else d = A(1,1)*(A(2,2)*A(3,3)-A(2,3)*A(3,2)) - A(1,2)*(A(2,1)*A(3,3)-A(2,3)*A(3,1)) + A(1,3)*(A(2,1)*A(3,2)-A(2,2)*A(3,1));
  vc_eq(A.det(),d,"determinant");
  Tensor B(A);
  Real r = B.inverse(1.0e-8);
  if (r == 0.0) {
    vc_cover("singular tensor");
    vc_true(d <= 1.0e-8 && d >= -1.0e-8,"refused only when singular");
    for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) vc_eq(B(i,j),A(i,j),"singular tensor unchanged");
    return;
  }
  vc_cover("regular tensor");
  vc_eq(r,d,"inverse returns the determinant");
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real p = 0.0;
      for (int k = 1; k <= n; k++) p += A(i,k)*B(k,j);
      vc_eq(p,i == j ? 1.0 : 0.0,"A*inv(A) is the identity");
    }
}

static Vec3 arbV(const char* nm) { return Vec3(vc_real(nm),vc_real(nm),vc_real(nm)); }
// component (i,j) of a symmetric tensor by its documented storage order
static Real symc(const std::vector<Real>& v, int n, int i, int j)
{
  if (n == 3) {
    static const int ix[3][3] = {{0,3,5},{3,1,4},{5,4,2}};
    return v[ix[i-1][j-1]];
  }
  if (v.size() == 4) {
    if (i == 3 || j == 3) return i == j ? v[2] : 0.0;
    return i == j ? v[i-1] : v[3];
  }
  if (n == 2) return i == j ? v[i-1] : v[2];
  return v[0];
}

CONTRACT(H_tensor_operators)
{
  int n = DIM();
  Tensor A(n), B(n);
  fillT(A,"A"); fillT(B,"B");
  Real a = vc_real("a");
  Tensor C = A*B, D = a*A, A0(A), Ap(A), Am(A), Z(A), Dg(n), Dv(n), Id(n,true);
  Vec3 d = arbV("d");
  Ap += a; Am -= a; Dg.diag(a); Dv.diag(d); Z.zero();
  Tensor Cp(n); Cp = A;
  Tensor Cs(n); Cs = a;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real p = 0.0;
      for (int k = 1; k <= n; k++) p += A(i,k)*B(k,j);
      vc_eq(C(i,j),p,"operator* is the matrix product");
      vc_eq(D(i,j),a*A(i,j),"scalar times tensor");
      vc_eq(Ap(i,j),A(i,j)+(i == j ? a : 0.0),"adding a scaled unit tensor");
      vc_eq(Am(i,j),A(i,j)-(i == j ? a : 0.0),"subtracting a scaled unit tensor");
      vc_eq(Dg(i,j),i == j ? a : 0.0,"diag(value)");
      vc_eq(Dv(i,j),i == j ? d(i) : 0.0,"diag(vector)");
      vc_eq(Cs(i,j),i == j ? a : 0.0,"assigning a scalar");
      vc_eq(Id(i,j),i == j ? 1.0 : 0.0,"identity");
      vc_eq(Z(i,j),0.0,"zero");
      vc_eq(Cp(i,j),A(i,j),"assignment");
      vc_eq(A0(i,j),A(i,j),"operands unchanged");
      vc_eq(A[j-1](i),A(i,j),"column access");
    }
}

CONTRACT(H_tensor_mixed_dim)
{
  int n = DIM(), m = vc_pick("m",1,3);
  Tensor A(n), B(m);
  fillT(A,"A"); fillT(B,"B");
  Tensor C(n); fillT(C,"C"); C = B;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++)
      vc_eq(C(i,j),i <= m && j <= m ? B(i,j) : 0.0,"assignment between dimensions keeps the common block");
}

CONTRACT(H_tensor_shift)
{
  int n = vc_pick("nsd",2,3), s = vc_pick("shift",-3,3);
  Tensor A(n); fillT(A,"A");
  Tensor B(A); B.shift(s);
  if (s <= -n) return;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++)
      vc_eq(B(i,(j-1+n+s)%n+1),A(i,j),"shift moves columns cyclically");
}

CONTRACT(H_tensor_rotate)
{
  int n = vc_pick("nsd",2,3), ax = n == 3 ? vc_pick("axis",1,3) : 3;
  Tensor A(n); fillT(A,"A");
  Tensor B(A);
  Real al = vc_real("alpha"), c = cos(al), s = sin(al);
  B.rotate(al,ax);
  Real R[3][3] = {{1,0,0},{0,1,0},{0,0,1}};
  int p = ax == 1 ? 1 : 0, q = ax == 3 ? 1 : 2;
  R[p][p] = c; R[p][q] = -s; R[q][p] = s; R[q][q] = c;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real e = 0.0;
      for (int k = 1; k <= n; k++) e += A(i,k)*R[k-1][j-1];
      vc_eq(B(i,j),e,"rotate is post-multiplication by a rotation");
    }
}

static void isRotation(const Tensor& T, bool byRandom = false)
{
  for (int i = 1; i <= 3; i++)
    for (int j = i; j <= 3; j++) {
      Real e = 0.0;
      for (int k = 1; k <= 3; k++) e += T(k,i)*T(k,j);
      vc_eq(e,i == j ? 1.0 : 0.0,"axes are orthonormal");
    }
  for (int i = 1; i <= 3; i++) {
    int j = i%3+1, k = j%3+1;
    vc_eq(T(j,1)*T(k,2)-T(k,1)*T(j,2),T(i,3),"axes are right-handed");
  }
}

CONTRACT(H_tensor_from_angles)
{
  Real a1 = vc_real("a1"), a2 = vc_real("a2"), a3 = vc_real("a3");
  vc_assume(a1*a1+a2*a2+a3*a3 > 1.0e-12);
  Tensor T(a1,a2,a3);
  Real th = sqrt(a1*a1+a2*a2+a3*a3);
  Real s = sin(0.5*th)/th, c = cos(0.5*th);
  Real K[3][3] = {{0,-a3,a2},{a3,0,-a1},{-a2,a1,0}};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      Real k2 = 0.0;
      for (int k = 0; k < 3; k++) k2 += K[i][k]*K[k][j];
      vc_eq(T(i+1,j+1),(i == j)+2*s*c*K[i][j]+2*s*s*k2,"rotation vector gives the Rodrigues rotation");
    }
  vc_cover("finite rotation");
}

CONTRACT(H_tensor_from_zero_angles)
{
  Tensor T(0.0,0.0,0.0);
  for (int i = 1; i <= 3; i++)
    for (int j = 1; j <= 3; j++)
      vc_eq(T(i,j),i == j ? 1.0 : 0.0,"no rotation gives the identity");
}

static void fromNormal(const Vec3& n, bool isX)
{
  Real l2 = n.x*n.x+n.y*n.y+n.z*n.z;
  vc_assume(l2 > 1.0);
  Tensor T(n,isX);
  isRotation(T);
  Real l = sqrt(l2);
  for (int i = 1; i <= 3; i++)
    vc_eq(T(i,isX ? 1 : 3)*l,n(i),"the normal is the given axis");
}

CONTRACT(T_tensor_from_normal)
{
  bool isX = vc_pick("vnIsX",0,1);
  fromNormal(arbV("n"),isX);
}

CONTRACT(H_tensor_from_plane_normal)
{
  bool isX = vc_pick("vnIsX",0,1);
  int z = vc_pick("zero",1,3);
  Vec3 n = arbV("n");
  n(z) = 0.0;
  fromNormal(n,isX);
}

CONTRACT(H_tensor_from_tangents)
{
  bool z = vc_pick("t1isZ",0,1), xz = vc_pick("t2isXZ",0,1);
  Vec3 a = arbV("a"), b = arbV("b"), c;
  c.cross(a,b);
  Real l2 = a.x*a.x+a.y*a.y+a.z*a.z;
  vc_assume(l2 > 1.0 && c.x*c.x+c.y*c.y+c.z*c.z > 1.0);
  Tensor T(a,b,z,xz);
  isRotation(T);
  Real l = sqrt(l2);
  for (int i = 1; i <= 3; i++)
    vc_eq(T(i,z ? 3 : 1)*l,a(i),"first tangent is the given axis");
  // the axis that is normal to both tangents
  int m = xz ? 2 : 3; if (z) m = xz ? 1 : 2;
  Real e1 = 0.0, e2 = 0.0;
  for (int i = 1; i <= 3; i++) { e1 += T(i,m)*a(i); e2 += T(i,m)*b(i); }
  vc_eq(e1,0.0,"normal axis is normal to t1");
  vc_eq(e2,0.0,"normal axis is normal to t2");
}

CONTRACT(H_tensor_queries)
{
  int n = DIM();
  Tensor A(n), B(n);
  fillT(A,"A"); fillT(B,"B");
  Real tol = vc_real_range("tol",0.0,1.0);
  bool eq = true, z = true;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real d = A(i,j)-B(i,j), a = A(i,j);
      if (d > tol || -d > tol) eq = false;
      if (a > tol || -a > tol) z = false;
    }
  bool e = A.equal(B,tol), zz = A.isZero(tol);
  vc_true(e == eq,"equal within tolerance");
  vc_true(zz == z,"zero within tolerance");
}

CONTRACT(H_symm_storage)
{
  int n = DIM(), w = n == 2 ? vc_pick("with33",0,1) : 0;
  SymmTensor A(n,w), B(n,w);
  fillT(A,"A"); fillT(B,"B");
  const std::vector<Real>& va = A; const std::vector<Real>& vb = B;
  vc_eqi(va.size(),n == 2 && w ? 4 : n*(n+1)/2,"number of components");
  Real tr = 0.0, ip = 0.0, nn = 0.0, dp = 0.0;
  int m = w ? 3 : n;
  Real a = vc_real("a");
  SymmTensor S = A+B, D = A-B, P = A+a, M = A-a, X = a*A;
  const std::vector<Real>& vp = P; const std::vector<Real>& vm = M; const std::vector<Real>& vx = X;
  const std::vector<Real>& vs = S; const std::vector<Real>& vd = D;
  SymmTensor E(n,w); E = a; const std::vector<Real>& ve = E;
  for (int i = 1; i <= m; i++) {
    tr += symc(va,n,i,i);
    for (int j = 1; j <= m; j++) {
      if (i <= n && j <= n)
        vc_eq(A(i,j),symc(va,n,i,j),"component access follows the storage order");
      Real x = symc(va,n,i,j), y = symc(vb,n,i,j);
      ip += x*y; nn += x*x; if (i == j) dp += x*y;
      vc_eq(symc(vs,n,i,j),x+y,"sum");
      vc_eq(symc(vd,n,i,j),x-y,"difference");
      vc_eq(symc(vp,n,i,j),x+(i == j ? a : 0.0),"adding a scaled unit tensor");
      vc_eq(symc(vm,n,i,j),x-(i == j ? a : 0.0),"subtracting a scaled unit tensor");
      vc_eq(symc(vx,n,i,j),a*x,"scalar times tensor");
      vc_eq(symc(ve,n,i,j),i == j ? a : 0.0,"assigning a scalar");
    }
  }
  vc_eq(A.trace(),tr,"trace");
  vc_eq(A.innerProd(B),ip,"inner product of symmetric tensors is A:B");
  SymmTensor Bd(B); std::vector<Real>& vbd = Bd;
  for (size_t i = m; i < vbd.size(); i++) vbd[i] = 0.0;
  vc_eq(A.innerProd(Bd),dp,"inner product with a diagonal tensor");
  vc_eq(A.L2norm(false),nn,"squared L2-norm");
  vc_cover("symmetric tensor done");
}

CONTRACT(H_symm_inverse)
{
  int n = DIM(), w = n == 2 ? vc_pick("with33",0,1) : 0;
  SymmTensor A(n,w);
  fillT(A,"A");
  const std::vector<Real>& va = A;
  int m = w ? 3 : n;
  Real d;
  if (m == 1) d = symc(va,n,1,1);
  else if (m == 2) d = symc(va,n,1,1)*symc(va,n,2,2)-symc(va,n,1,2)*symc(va,n,1,2);
  else {
    Real a = symc(va,n,1,1), b = symc(va,n,2,2), c = symc(va,n,3,3), p = symc(va,n,1,2), q = symc(va,n,2,3), r = symc(va,n,1,3);
    d = a*b*c+2*p*q*r-a*q*q-b*r*r-c*p*p;
  }
  vc_eq(A.det(),d,"determinant of a symmetric tensor");
  SymmTensor B(A);
  Real r = B.inverse(1.0e-8);
  if (r == 0.0) {
    vc_true(d <= 1.0e-8 && d >= -1.0e-8,"refused only when singular");
    return;
  }
  vc_eq(r,d,"inverse returns the determinant");
  const std::vector<Real>& vb = B;
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= m; j++) {
      Real p = 0.0;
      for (int k = 1; k <= m; k++) p += symc(va,n,i,k)*symc(vb,n,k,j);
      vc_eq(p,i == j ? 1.0 : 0.0,"A*inv(A) is the identity");
    }
}

CONTRACT(H_symm_transform)
{
  int n = vc_pick("nsd",2,3), w = n == 2 ? vc_pick("with33",0,1) : 0, t = vc_pick("tdim",2,3);
  SymmTensor A(n,w); Tensor T(t);
  fillT(A,"A"); fillT(T,"T");
  SymmTensor B(A); B.transform(T);
  const std::vector<Real>& va = A; const std::vector<Real>& vb = B;
  int m = w ? 3 : n;
  auto tc = [&T,t,n](int i, int j) -> Real { return i <= t && j <= t && i <= n && j <= n ? T(i,j) : (i == j ? 1.0 : 0.0); };
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= m; j++) {
      Real e = 0.0;
      for (int k = 1; k <= m; k++)
        for (int l = 1; l <= m; l++)
          e += tc(i,k)*symc(va,n,k,l)*tc(j,l);
      vc_eq(symc(vb,n,i,j),e,"congruence transformation");
    }
}

CONTRACT(H_cauchy_green)
{
  int n = DIM();
  Tensor F(n); fillT(F,"F");
  SymmTensor C(n), B(n);
  C.rightCauchyGreen(F); B.leftCauchyGreen(F);
  const std::vector<Real>& vc = C; const std::vector<Real>& vb = B;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      Real c = 0.0, b = 0.0;
      for (int k = 1; k <= n; k++) { c += F(k,i)*F(k,j); b += F(i,k)*F(j,k); }
      vc_eq(symc(vc,n,i,j),c,"right Cauchy-Green");
      vc_eq(symc(vb,n,i,j),b,"left Cauchy-Green");
    }
}

CONTRACT(H_symm_outer)
{
  int n = DIM();
  Vec3 u = arbV("u");
  SymmTensor A(n); A.outerProd(u);
  const std::vector<Real>& va = A;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++)
      vc_eq(symc(va,n,i,j),u(i)*u(j),"outer product of a vector with itself");
}

CONTRACT(H_symm_product)
{
  int n = DIM();
  SymmTensor A(n), B(n);
  fillT(A,"A"); fillT(B,"B");
  Tensor G(n), At(A), Sy(n);
  const std::vector<Real>& va = A;
  Sy = A;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++)
      vc_eq(Sy(i,j),symc(va,n,i,j),"general tensor from a symmetric one");
  Vec3 x = arbV("x"), y = A*x;
  for (int i = 1; i <= n; i++) {
    Real p = 0.0;
    for (int k = 1; k <= n; k++) p += symc(va,n,i,k)*x(k);
    vc_eq(y(i),p,"symmetric tensor times vector");
  }
}

CONTRACT(H_von_mises)
{
  int n = DIM(), w = n == 2 ? vc_pick("with33",0,1) : 0;
  SymmTensor S(n,w); fillT(S,"S");
  const std::vector<Real>& v = S;
  // 3/2 s:s with s the deviator in three dimensions
  auto c = [&v,n](int i, int j) -> Real { return (i <= n && j <= n) || v.size() == 4 ? symc(v,n,i,j) : 0.0; };
  Real tr = c(1,1)+c(2,2)+c(3,3), e = 0.0;
  for (int i = 1; i <= 3; i++)
    for (int j = 1; j <= 3; j++) {
      Real s = c(i,j)-(i == j ? tr/3.0 : 0.0);
      e += 1.5*s*s;
    }
  vc_eq(S.vonMises(false),e,"squared von Mises value is 3/2 s:s");
}

CONTRACT(H_principal_2D)
{
  SymmTensor S(2); fillT(S,"S");
  const std::vector<Real>& v = S;
  Vec3 p;
  bool ok = S.principal(p);
  vc_true(ok,"principal values of a 2D tensor always exist");
  if (!ok) return;
  vc_near(p.x+p.y,v[0]+v[1],1e-9,"principal values add up to the trace");
  vc_near(p.x*p.y,v[0]*v[1]-v[2]*v[2],1e-9,"principal values multiply to the determinant");
  vc_le(p.y,p.x,"principal values are sorted");
}

CONTRACT(H_principal_hydrostatic)
{
  int w = vc_pick("with33",0,1);
  SymmTensor S(w ? 2 : 3,w);
  Real q = vc_real("q");
  S = q;
  Vec3 p;
  vc_true(S.principal(p),"principal values exist");
  vc_eq(p.x,q,"principal value of a hydrostatic tensor");
  vc_eq(p.y,q,"principal value of a hydrostatic tensor");
  vc_eq(p.z,q,"principal value of a hydrostatic tensor");
}
