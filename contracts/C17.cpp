// VC-TU: src/Utility/Legendre.C src/Utility/Chebyshev.C src/Utility/TensorFunction.C src/Utility/Tensor.C src/LinAlg/DenseMatrix.C
// VC-TIME: 90
#include "vc.h"
#include "MatVec.h"
#include "Legendre.h"
#include "Chebyshev.h"

CONTRACT(H_legendre)
{
  int n = vc_pick("n",1,9);
  double x = vc_real_range("x",-1,1), L = 0.0, D = 0.0;
  double p0 = 1.0, p1 = x, d0 = 0.0, d1 = 1.0;
  for (int k = 1; k < n; k++) {
    double p2 = ((2*k+1)*x*p1 - k*p0)/(k+1.0);
    double d2 = ((2*k+1)*(p1 + x*d1) - k*d0)/(k+1.0);
    p0 = p1; p1 = p2; d0 = d1; d1 = d2;
  }
  vc_true(Legendre::eval(n,x,L),"value is available in [-1,1]");
  vc_eq(L,p1,"three-term recurrence");
  vc_true(Legendre::derEval(n,x,D),"derivative is available in [-1,1]");
  if (!vc_symbolic()) vc_assume(x == 1.0 || x == -1.0 || (x < 0.999 && x > -0.999));
  vc_eq(D,d1,"derivative of the recurrence");
}

CONTRACT(H_legendre_end_points)
{
  int n = vc_pick("n",1,30);
  double L = 0.0, D = 0.0;
  vc_true(Legendre::eval(n,1.0,L) && Legendre::derEval(n,1.0,D),"upper end point");
  vc_eq(L,1.0,"P_n(1) = 1");
  vc_eq(D,n*(n+1)/2.0,"P_n'(1) = n(n+1)/2");
  vc_true(Legendre::eval(n,-1.0,L) && Legendre::derEval(n,-1.0,D),"lower end point");
  vc_eq(L,n%2 ? -1.0 : 1.0,"P_n(-1) = (-1)^n");
  vc_eq(D,n%2 ? n*(n+1)/2.0 : -n*(n+1)/2.0,"P_n'(-1)");
}

CONTRACT(H_legendre_refused)
{
  int n = vc_pick("n",-2,4);
  double x = vc_real("x"), L = 0.0, D = 0.0;
  bool ok = n > 0 && x >= -1.0 && x <= 1.0;
  vc_true(Legendre::eval(n,x,L) == ok,"refused out of range");
  vc_true(Legendre::derEval(n,x,D) == ok,"refused out of range");
}

//! Gauss and Gauss-Lobatto rules computed through the eigenvalue solver (bounded: native execution)
CONTRACT(N_legendre_rules)
{
  int n = vc_pick("n",2,20);
  RealArray w, x, wl, xl;
  vc_true(Legendre::GL(w,x,n),"Gauss-Legendre rule");
  vc_true(Legendre::GLL(wl,xl,n),"Gauss-Lobatto-Legendre rule");
  vc_eqi(x.size(),n,"number of points");
  vc_eqi(xl.size(),n,"number of points");
  vc_near(xl.front(),-1.0,0.0,"first point is the end point");
  vc_near(xl.back(),1.0,0.0,"last point is the end point");
  for (int i = 0; i < n; i++) {
    vc_true(w[i] > 0.0 && wl[i] > 0.0,"positive weights");
    if (i > 0) vc_true(x[i] > x[i-1] && xl[i] > xl[i-1],"increasing points");
  }
  for (int k = 0; k < 2*n; k++) {
    double s = 0.0, t = 0.0, e = k%2 ? 0.0 : 2.0/(k+1.0);
    for (int i = 0; i < n; i++) { s += w[i]*pow(x[i],k); t += wl[i]*pow(xl[i],k); }
    vc_near(s,e,1e-11,"Gauss rule integrates degree 2n-1");
    if (k < 2*n-2) vc_near(t,e,1e-11,"Lobatto rule integrates degree 2n-3");
  }
  // Derivatives of the Lagrange polynomials through the Lobatto points
  Matrix D;
  vc_true(Legendre::basisDerivatives(n,D),"basis derivatives");
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= n; j++) {
      double d = 0.0;
      for (int k = 0; k < n; k++) {
        if (k == j-1) continue;
        double q = 1.0/(xl[j-1]-xl[k]);
        for (int l = 0; l < n; l++)
          if (l != k && l != j-1) q *= (xl[i-1]-xl[l])/(xl[j-1]-xl[l]);
        d += q;
      }
      vc_near(D(i,j),d,1e-8*n*n,"derivative of the Lagrange polynomial");
    }
}

//! Chebyshev polynomials of both kinds with derivatives from the recurrences
struct Cheb
{
  double T[12], dT[12], ddT[12], U[12], dU[12];
  Cheb(int n, double x)
  {
    T[0] = 1.0; dT[0] = ddT[0] = 0.0; T[1] = x; dT[1] = 1.0; ddT[1] = 0.0;
    U[0] = 1.0; dU[0] = 0.0; U[1] = 2.0*x; dU[1] = 2.0;
    for (int k = 2; k <= n; k++) {
      T[k] = 2.0*x*T[k-1] - T[k-2];
      dT[k] = 2.0*T[k-1] + 2.0*x*dT[k-1] - dT[k-2];
      ddT[k] = 4.0*dT[k-1] + 2.0*x*ddT[k-1] - ddT[k-2];
      U[k] = 2.0*x*U[k-1] - U[k-2];
      dU[k] = 2.0*U[k-1] + 2.0*x*dU[k-1] - dU[k-2];
    }
  }
};

CONTRACT(H_chebyshev_values)
{
  int n = vc_pick("n",0,9);
  double x = vc_real("x");
  Cheb c(n,x);
  vc_eq(Chebyshev::evalPol1(n,x),c.T[n],"first kind");
  vc_eq(Chebyshev::evalPol2(n,x),c.U[n],"second kind");
  vc_eq(Chebyshev::evalDer1(n,x),c.dT[n],"derivative of the first kind");
}

CONTRACT(H_chebyshev_derivatives)
{
  int n = vc_pick("n",0,9);
  double x = vc_real("x");
  Cheb c(n,x);
  vc_assume(!vc_symbolic() ? (x < 0.99 || x > 1.01) && (x > -0.99 || x < -1.01)
                           : (x < 1.0-1e-6 || x > 1.0+1e-6) && (x > -1.0+1e-6 || x < -1.0-1e-6));
  vc_eq(Chebyshev::evalDer2(n,x),c.dU[n],"derivative of the second kind");
  vc_eq(Chebyshev::eval2Der1(n,x),c.ddT[n],"second derivative of the first kind");
}

CONTRACT(H_chebyshev_end_points)
{
  int n = vc_pick("n",0,11), s = vc_pick("end",0,1);
  double x = s ? 1.0 : -1.0;
  Cheb c(n,x);
  vc_eq(Chebyshev::evalPol1(n,x),c.T[n],"first kind");
  vc_eq(Chebyshev::evalPol2(n,x),c.U[n],"second kind");
  vc_eq(Chebyshev::evalDer1(n,x),c.dT[n],"derivative of the first kind");
  vc_eq(Chebyshev::evalDer2(n,x),c.dU[n],"derivative of the second kind");
  vc_eq(Chebyshev::eval2Der1(n,x),c.ddT[n],"second derivative of the first kind");
}

//! Tensor-product field with given sizes and symbolic coefficients, domain and point
static void field(ChebyshevFunc& f, int dim)
{
  static const char* nm[3] = { "n1", "n2", "n3" };
  int m = 1;
  for (int k = 0; k < 3; k++) {
    f.n[k] = k < dim ? vc_pick(nm[k],1,dim > 2 ? 3 : 4) : 1;
    m *= f.n[k];
    f.domain[k][0] = vc_real("lower");
    f.domain[k][1] = vc_real("upper");
    vc_assume(f.domain[k][1]-f.domain[k][0] > 0.125);
  }
  f.coefs.resize(m);
  vc_fill(f.coefs.data(),m,"coefficient");
}

static Vec3 point(const ChebyshevFunc& f, int dim)
{
  Vec3 X(0.0,0.0,0.0);
  for (int k = 0; k < dim; k++) {
    X[k] = vc_real("X");
    double xi = -1.0 + 2.0*(X[k]-f.domain[k][0])/(f.domain[k][1]-f.domain[k][0]);
    if (vc_symbolic()) vc_assume((xi < 1.0-1e-6 || xi > 1.0+1e-6) && (xi > -1.0+1e-6 || xi < -1.0-1e-6));
    else vc_assume((xi < 0.99 || xi > 1.01) && (xi > -0.99 || xi < -1.01) && xi < 10.0 && xi > -10.0);
  }
  return X;
}

//! The defining sum; d1,d2 = directions of differentiation (0 = none)
static double sum(const ChebyshevFunc& f, const Vec3& X, int d1 = 0, int d2 = 0)
{
  double v[3][4] = {{1.0},{1.0},{1.0}};
  for (int k = 0; k < 3; k++) {
    double L = f.domain[k][1]-f.domain[k][0];
    int order = (d1 == k+1) + (d2 == k+1);
    Cheb c(3,-1.0 + 2.0*(X[k]-f.domain[k][0])/L);
    for (int i = 0; i < f.n[k]; i++)
      v[k][i] = order == 0 ? c.T[i] : (order == 1 ? c.dT[i]*2.0/L : c.ddT[i]*4.0/(L*L));
  }
  double s = 0.0;
  int m = 0;
  for (int k = 0; k < f.n[2]; k++)
    for (int j = 0; j < f.n[1]; j++)
      for (int i = 0; i < f.n[0]; i++, m++)
        s += f.coefs[m]*v[0][i]*v[1][j]*v[2][k];
  return s;
}

CONTRACT(H_chebyshev_field)
{
  int dim = vc_pick("dim",1,3);
  ChebyshevFunc f("1 0 1 1 0 1 1 0 1 0",false);
  field(f,dim);
  Vec3 X = point(f,dim);
  vc_eq(f(X),sum(f,X),"field is the sum over the tensor product basis");
}

CONTRACT(H_chebyshev_field_derivatives)
{
  int dim = vc_pick("dim",1,3), d1 = vc_pick("d1",1,3), d2 = vc_pick("d2",0,3);
  ChebyshevFunc f("1 0 1 1 0 1 1 0 1 0",false);
  field(f,dim);
  Vec3 X = point(f,dim);
  if (d2 == 0)
    vc_eq(f.deriv(X,d1),sum(f,X,d1),"first derivative");
  else
    vc_eq(f.dderiv(X,d1,d2),sum(f,X,d1,d2),"second derivative");
}

CONTRACT(H_chebyshev_read)
{
  ChebyshevFunc f("2 0.5 1.5\n3 -1 1\n0 0 1\n1.0 2.5 -3.0 4e-1 5 6.25",false);
  vc_eqi(f.getSize()[0],2,"size in first direction");
  vc_eqi(f.getSize()[1],3,"size in second direction");
  vc_eqi(f.getSize()[2],1,"size in absent direction");
  vc_eqi(f.getCoefs().size(),6,"number of coefficients");
  vc_eq(f.getCoefs()[3],0.4,"coefficients in order");
  vc_eq(f.getCoefs()[5],6.25,"coefficients in order");
  Vec3 X(vc_real("x"),vc_real("y"),0.0);
  double xi = 2.0*(X.x-0.5)-1.0, y = X.y;
  double e = 1.0 + 2.5*xi + (-3.0 + 0.4*xi)*y + (5.0 + 6.25*xi)*(2.0*y*y-1.0);
  vc_eq(f(X),e,"field read from a string");
  vc_true(!f.isZero(),"field is not zero");
}

CONTRACT(H_chebyshev_vector_field)
{
  int dim = vc_pick("dim",2,3);
  std::vector<std::string> in(dim,dim == 2 ? "1 0 1 1 0 1 1 0 1 0" : "1 0 1 1 0 1 2 0 1 0 0");
  ChebyshevVecFunc f(in,false);
  static const char* nm[3] = { "n1", "n2", "n3" };
  int n[3] = { 1, 1, 1 }, m = 1;
  for (int k = 0; k < dim; k++) m *= n[k] = vc_pick(nm[k],2,k < 1 ? 3 : 2);
  for (int c = 0; c < dim; c++) {
    ChebyshevFunc& g = *f.f[c];
    for (int k = 0; k < 3; k++) { g.n[k] = n[k]; g.domain[k] = { 0.0, 2.0 }; }
    g.coefs.resize(m);
    vc_fill(g.coefs.data(),m,"coefficient");
  }
  Vec3 X = point(*f.f[0],dim);
  Vec3 v = f(X);
  std::vector<Real> G = f.gradient(X).size() ? f.evalGradient(X) : std::vector<Real>();
  std::vector<Real> H = f.evalHessian(X);
  vc_eqi(G.size(),dim*dim,"size of the gradient");
  vc_eqi(H.size(),dim*dim*dim,"size of the hessian");
  Tensor gt = f.gradient(X);
  for (int c = 0; c < dim; c++) {
    vc_eq(v[c],sum(*f.f[c],X),"component of the vector field");
    for (int d = 1; d <= dim; d++) {
      vc_eq(G[(d-1)*dim+c],sum(*f.f[c],X,d),"gradient array, component fastest");
      vc_eq(gt(c+1,d),sum(*f.f[c],X,d),"gradient tensor");
      for (int e = 1; e <= dim; e++)
        vc_eq(H[((e-1)*dim+d-1)*dim+c],sum(*f.f[c],X,d,e),"hessian array, component fastest");
    }
  }
}

CONTRACT(H_chebyshev_tensor_field)
{
  int dim = 2;
  std::vector<std::string> in(dim*dim,"1 0 1 1 0 1 1 0 1 0");
  ChebyshevTensorFunc f(in,false);
  int n[3] = { vc_pick("n1",2,3), vc_pick("n2",2,3), 1 }, m = n[0]*n[1];
  for (int c = 0; c < dim*dim; c++) {
    ChebyshevFunc& g = *f.f[c];
    for (int k = 0; k < 3; k++) { g.n[k] = n[k]; g.domain[k] = { 0.0, 2.0 }; }
    g.coefs.resize(m);
    vc_fill(g.coefs.data(),m,"coefficient");
  }
  Vec3 X = point(*f.f[0],dim);
  Tensor v = f(X);
  std::vector<Real> G = f.evalGradient(X), H = f.evalHessian(X);
  vc_eqi(G.size(),dim*dim*dim,"size of the gradient");
  vc_eqi(H.size(),dim*dim*dim*dim,"size of the hessian");
  for (int j = 0, c = 0; j < dim; j++)
    for (int i = 0; i < dim; i++, c++) {
      vc_eq(v(i+1,j+1),sum(*f.f[c],X),"component of the tensor field");
      for (int d = 1; d <= dim; d++) {
        vc_eq(G[(d-1)*dim*dim+c],sum(*f.f[c],X,d),"gradient array, component fastest");
        for (int e = 1; e <= dim; e++)
          vc_eq(H[((e-1)*dim+d-1)*dim*dim+c],sum(*f.f[c],X,d,e),"hessian array, component fastest");
      }
    }
}
