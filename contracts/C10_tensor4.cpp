// VC-TU: src/Utility/Tensor4.C
// VC-ASSUME: The printing of a matrix (utl::operator<<) is replaced by a stand-in that keeps the entries of the matrix to be printed
#include "vc.h"
#include "Tensor4.h"
#include "matrix.h"
#include <iostream>

static std::vector<Real> printed;
static size_t pRows = 0, pCols = 0;

namespace utl {
template<> std::ostream& operator<< <Real> (std::ostream& s, const matrix<Real>& A)
{
  pRows = A.rows();
  pCols = A.cols();
  printed.assign(A.ptr(),A.ptr()+A.size());
  return s;
}
}

// The position of the pair (i,j) in the vector of a symmetric tensor
static int voigt (int n, int i, int j)
{
  if (i == j) return i-1;
  if (n == 2) return 2;
  static const int t[4][4] = {{0,0,0,0},{0,0,3,5},{0,3,0,4},{0,5,4,0}};
  return t[i][j];
}

#define ALL4(n) for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) for (int k = 1; k <= n; k++) for (int l = 1; l <= n; l++)

static std::vector<Real> values (size_t n, const char* nm)
{
  std::vector<Real> x(n);
  vc_fill(x.data(),n,nm);
  return x;
}

CONTRACT(H_general_tensor4)
{
  int n = vc_pick("nsd",1,3);
  int N = n*n*n*n;
  std::vector<Real> x = values(N+vc_pick("extra",0,2),"x");
  Tensor4 T(x,n), C(T), A(n == 3 ? 2 : 3,Real(0));
  const Tensor4& cT = T;
  A = T;
  const std::vector<Real>& v = T;
  vc_eqi(v.size(),N,"a tensor has all its components");
  vc_true(T.ptr() == v.data(),"the components are referred to through a pointer");
  ALL4(n)
  {
    Real val = x[i-1 + n*(j-1) + n*n*(k-1) + n*n*n*(l-1)];
    vc_eq(cT(i,j,k,l),val,"component of a tensor made from a matrix");
    vc_eq(C(i,j,k,l),val,"component of a copied tensor");
    vc_eq(A(i,j,k,l),val,"component of an assigned tensor");
  }
  Real s = vc_real("s");
  T += s;
  C = s;
  ALL4(n)
  {
    bool same = i == j && j == k && k == l;
    vc_eq(T(i,j,k,l),A(i,j,k,l) + (same ? s : 0.0),"incremented by an identity");
    vc_eq(C(i,j,k,l),same ? s : 0.0,"assigned a scaled identity");
  }
  A(n,1,1,n) = s;
  vc_eq(A.ptr()[n-1 + n*n*n*(n-1)],s,"component assigned through access");
  A.zero();
  ALL4(n) vc_eq(A(i,j,k,l),0.0,"zeroed tensor");
}

CONTRACT(H_identity_tensor4)
{
  int n = vc_pick("nsd",1,3);
  Real s = vc_real("s");
  Tensor4 I(n,s), J(n,s,true);
  SymmTensor4 SI(n), SJ(n,true);
  ALL4(n)
  {
    bool same = i == j && j == k && k == l;
    bool pair = i == j && k == l;
    vc_eq(I(i,j,k,l),same ? s : 0.0,"general identity");
    vc_eq(J(i,j,k,l),pair ? s : 0.0,"general identity, J");
    vc_eq(SI(i,j,k,l),same ? 1.0 : 0.0,"symmetric identity");
    vc_eq(SJ(i,j,k,l),pair ? 1.0 : 0.0,"symmetric identity, J");
  }
}

CONTRACT(H_symmetric_tensor4)
{
  int n = vc_pick("nsd",1,3);
  int m = n*(n+1)/2;
  std::vector<Real> x = values(m*m+vc_pick("extra",0,2),"x");
  SymmTensor4 T(x,n), C(T), A(n);
  const SymmTensor4& cT = T;
  A = T;
  const std::vector<Real>& v = T;
  vc_eqi(v.size(),m*m,"a symmetric tensor has all its components");
  ALL4(n)
  {
    Real val = x[m*voigt(n,i,j)+voigt(n,k,l)];
    vc_eq(cT(i,j,k,l),val,"component of a symmetric tensor made from a matrix");
    vc_eq(C(i,j,k,l),val,"component of a copied symmetric tensor");
    vc_eq(A(i,j,k,l),val,"component of an assigned symmetric tensor");
  }
  Real s = vc_real("s");
  T += s;
  ALL4(n)
  {
    bool same = i == j && j == k && k == l;
    vc_eq(T(i,j,k,l),A(i,j,k,l) + (same ? s : 0.0),"symmetric tensor incremented by an identity");
  }
  static_cast<Tensor4&>(C) = s;
  ALL4(n)
  {
    bool same = i == j && j == k && k == l;
    vc_eq(C(i,j,k,l),same ? s : 0.0,"symmetric tensor assigned a scaled identity");
  }
  Tensor4 G(n);
  G = A;
  ALL4(n) vc_eq(G(i,j,k,l),A(i,j,k,l),"general tensor assigned a symmetric one");
  A(1,n,n,1) = s;
  vc_eq(A(n,1,1,n),s,"symmetric component assigned through access");
}

CONTRACT(H_print_tensor4)
{
  int n = vc_pick("nsd",1,3);
  if (vc_bool("symmetric"))
  {
    int m = n*(n+1)/2;
    SymmTensor4 T(values(m*m,"x"),n);
    std::cout << T;
    vc_eqi(pRows,n*n,"rows printed");
    vc_eqi(pCols,n*n,"columns printed");
    ALL4(n) vc_eq(printed[i-1+n*(j-1) + n*n*(k-1+n*(l-1))],T(i,j,k,l),"printed component of a symmetric tensor");
  }
  else
  {
    Tensor4 T(values(n*n*n*n,"x"),n);
    std::cout << T;
    vc_eqi(pRows,n*n,"rows printed");
    vc_eqi(pCols,n*n,"columns printed");
    ALL4(n) vc_eq(printed[i-1+n*(j-1) + n*n*(k-1+n*(l-1))],T(i,j,k,l),"printed component of a tensor");
  }
}
